// Generated by dv/gen_harness.py: executes single operations of the real crate on given words, for counterexample replay.
#![allow(non_camel_case_types, unused_imports, unused_mut, unused_variables)]
extern crate harness;
extern crate rand;
extern crate safecurves_rust as sc;
use harness::*;
use std::io::{BufRead, Write};
use std::fmt::{Formatter, LowerHex, UpperHex};
use sc::pack::Pack;
use sc::field::prime_field::*;
use sc::normalize::*;
fn hex(b: &[u8]) -> String { let mut s = String::from("#"); for x in b { s.push_str(&format!("{:02x}", x)); } s }
fn unhex(s: &str) -> Vec<u8> { let s = &s[1..]; (0..s.len()/2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect() }
fn words(s: &str) -> Vec<i64> { if s.is_empty() { return vec![]; } s.split(',').map(|x| x.parse::<i64>().unwrap()).collect() }
fn show(v: &[i64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
/// bytes at an address whose low bits depend on them (so that all alignments occur)
struct At { v: Vec<u8>, k: usize }
impl At { fn new(b: Vec<u8>) -> At { let k = b.iter().fold(0u8, |a, x| a.wrapping_mul(3).wrapping_add(*x)) as usize % 16; let mut v = vec![0u8; k]; v.extend_from_slice(&b); At { v, k } } fn s(&mut self) -> &mut [u8] { &mut self.v[self.k..] } }
struct LH<'a, T: LowerHex>(&'a T);
mod r_221_3 { use super::*; use harness::f_221_3::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 4]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 4], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 4] = unsafe { std::mem::transmute_copy::<F, [i64; 4]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 4]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 4], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 4] = unsafe { std::mem::transmute_copy::<M, [i64; 4]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_221_3_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_221_3_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_221_3_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_221_3_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_221_3_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_221_3_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_221_3_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_221_3_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_221_3_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_221_3_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_221_3_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_221_3_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_221_3_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_221_3_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_221_3_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_221_3_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_221_3_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_221_3_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_221_3_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_221_3_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_221_3_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_221_3_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_221_3_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_221_3_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_221_3_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 28]; h_221_3_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_221_3_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_221_3_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_221_3_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_221_3_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_221_3_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_221_3_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_221_3_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_221_3_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_221_3_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_221_3_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_221_3_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_221_3_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_221_3_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_221_3_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_MODULUS(&mut a); out(&a) }
    "const_M_HALF" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_M_HALF(&mut a); out(&a) }
    "const_M221_BASE_X" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_M221_BASE_X(&mut a); out(&a) }
    "const_M221_BASE_Y" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_M221_BASE_Y(&mut a); out(&a) }
    "const_M221_ORDER" => { let mut a = sc::field::mod_e221_3::ZERO; h_221_3_const_M221_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_222_117 { use super::*; use harness::f_222_117::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 4]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 4], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 4] = unsafe { std::mem::transmute_copy::<F, [i64; 4]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 4]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 4], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 4] = unsafe { std::mem::transmute_copy::<M, [i64; 4]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_222_117_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_222_117_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_222_117_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_222_117_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_222_117_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_222_117_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_222_117_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_222_117_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_222_117_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_222_117_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_222_117_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_222_117_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_222_117_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_222_117_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_222_117_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_222_117_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_222_117_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_222_117_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_222_117_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_222_117_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_222_117_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_222_117_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_222_117_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_222_117_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_222_117_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 28]; h_222_117_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_222_117_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_222_117_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_222_117_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_222_117_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_222_117_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_222_117_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_222_117_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_222_117_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_222_117_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_222_117_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_222_117_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_222_117_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_222_117_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_222_117_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_MODULUS(&mut a); out(&a) }
    "const_E222_D" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_E222_D(&mut a); out(&a) }
    "const_E222_BASE_X" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_E222_BASE_X(&mut a); out(&a) }
    "const_E222_BASE_Y" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_E222_BASE_Y(&mut a); out(&a) }
    "const_E222_ORDER" => { let mut a = sc::field::mod_e222_117::ZERO; h_222_117_const_E222_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_251_9 { use super::*; use harness::f_251_9::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 5]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 5], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 5] = unsafe { std::mem::transmute_copy::<F, [i64; 5]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 5]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 5], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 5] = unsafe { std::mem::transmute_copy::<M, [i64; 5]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_251_9_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_251_9_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_251_9_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_251_9_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_251_9_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_251_9_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_251_9_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_251_9_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_251_9_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_251_9_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_251_9_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_251_9_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_251_9_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_251_9_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_251_9_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_251_9_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_251_9_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_251_9_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_251_9_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_251_9_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_251_9_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_251_9_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_251_9_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_251_9_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_251_9_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 32]; h_251_9_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_251_9_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_251_9_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_251_9_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_251_9_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_251_9_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_251_9_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_251_9_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_251_9_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_251_9_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_251_9_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_251_9_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_251_9_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_251_9_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_251_9_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_MODULUS(&mut a); out(&a) }
    "const_CURVE1174_D" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_CURVE1174_D(&mut a); out(&a) }
    "const_CURVE1174_BASE_X" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_CURVE1174_BASE_X(&mut a); out(&a) }
    "const_CURVE1174_BASE_Y" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_CURVE1174_BASE_Y(&mut a); out(&a) }
    "const_CURVE1174_ORDER" => { let mut a = sc::field::mod_e251_9::ZERO; h_251_9_const_CURVE1174_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_255_19 { use super::*; use harness::f_255_19::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 5]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 5], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 5] = unsafe { std::mem::transmute_copy::<F, [i64; 5]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 5]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 5], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 5] = unsafe { std::mem::transmute_copy::<M, [i64; 5]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_255_19_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_255_19_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_255_19_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_255_19_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_255_19_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_255_19_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_255_19_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_255_19_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_255_19_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_255_19_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_255_19_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_255_19_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_255_19_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_255_19_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_255_19_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_255_19_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_255_19_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_255_19_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_255_19_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_255_19_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_255_19_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_255_19_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_255_19_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_255_19_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_255_19_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 32]; h_255_19_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_255_19_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_255_19_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_255_19_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_255_19_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_255_19_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_255_19_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_255_19_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_255_19_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_255_19_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_255_19_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_255_19_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_255_19_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_255_19_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_255_19_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_MODULUS(&mut a); out(&a) }
    "const_M_HALF" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_M_HALF(&mut a); out(&a) }
    "const_CURVE25519_BASE_X" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_CURVE25519_BASE_X(&mut a); out(&a) }
    "const_CURVE25519_BASE_Y" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_CURVE25519_BASE_Y(&mut a); out(&a) }
    "const_CURVE25519_ORDER" => { let mut a = sc::field::mod_e255_19::ZERO; h_255_19_const_CURVE25519_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_382_105 { use super::*; use harness::f_382_105::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 7]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 7], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 7] = unsafe { std::mem::transmute_copy::<F, [i64; 7]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 7]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 7], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 7] = unsafe { std::mem::transmute_copy::<M, [i64; 7]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_382_105_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_382_105_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_382_105_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_382_105_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_382_105_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_382_105_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_382_105_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_382_105_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_382_105_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_382_105_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_382_105_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_382_105_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_382_105_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_382_105_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_382_105_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_382_105_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_382_105_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_382_105_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_382_105_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_382_105_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_382_105_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_382_105_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_382_105_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_382_105_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_382_105_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 48]; h_382_105_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_382_105_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_382_105_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_382_105_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_382_105_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_382_105_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_382_105_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_382_105_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_382_105_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_382_105_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_382_105_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_382_105_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_382_105_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_382_105_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_382_105_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_MODULUS(&mut a); out(&a) }
    "const_E382_D" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_E382_D(&mut a); out(&a) }
    "const_E382_BASE_X" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_E382_BASE_X(&mut a); out(&a) }
    "const_E382_BASE_Y" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_E382_BASE_Y(&mut a); out(&a) }
    "const_E382_ORDER" => { let mut a = sc::field::mod_e382_105::ZERO; h_382_105_const_E382_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_383_187 { use super::*; use harness::f_383_187::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 7]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 7], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 7] = unsafe { std::mem::transmute_copy::<F, [i64; 7]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 7]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 7], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 7] = unsafe { std::mem::transmute_copy::<M, [i64; 7]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_383_187_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_383_187_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_383_187_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_383_187_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_383_187_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_383_187_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_383_187_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_383_187_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_383_187_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_383_187_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_383_187_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_383_187_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_383_187_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_383_187_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_383_187_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_383_187_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_383_187_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_383_187_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_383_187_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_383_187_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_383_187_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_383_187_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_383_187_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_383_187_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_383_187_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 48]; h_383_187_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_383_187_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_383_187_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_383_187_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_383_187_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_383_187_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_383_187_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_383_187_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_383_187_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_383_187_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_383_187_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_383_187_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_383_187_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_383_187_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_383_187_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_MODULUS(&mut a); out(&a) }
    "const_M_HALF" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_M_HALF(&mut a); out(&a) }
    "const_M383_BASE_X" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_M383_BASE_X(&mut a); out(&a) }
    "const_M383_BASE_Y" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_M383_BASE_Y(&mut a); out(&a) }
    "const_M383_ORDER" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_M383_ORDER(&mut a); out(&a) }
    "const_CURVE383187_BASE_X" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_CURVE383187_BASE_X(&mut a); out(&a) }
    "const_CURVE383187_BASE_Y" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_CURVE383187_BASE_Y(&mut a); out(&a) }
    "const_CURVE383187_ORDER" => { let mut a = sc::field::mod_e383_187::ZERO; h_383_187_const_CURVE383187_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_414_17 { use super::*; use harness::f_414_17::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 8]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 8], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 8] = unsafe { std::mem::transmute_copy::<F, [i64; 8]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 8]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 8], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 8] = unsafe { std::mem::transmute_copy::<M, [i64; 8]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_414_17_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_414_17_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_414_17_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_414_17_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_414_17_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_414_17_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_414_17_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_414_17_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_414_17_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_414_17_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_414_17_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_414_17_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_414_17_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_414_17_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_414_17_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_414_17_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_414_17_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_414_17_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_414_17_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_414_17_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_414_17_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_414_17_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_414_17_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_414_17_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_414_17_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 52]; h_414_17_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_414_17_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_414_17_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_414_17_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_414_17_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_414_17_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_414_17_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_414_17_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_414_17_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_414_17_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_414_17_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_414_17_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_414_17_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_414_17_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_414_17_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_MODULUS(&mut a); out(&a) }
    "const_CURVE41417_D" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_CURVE41417_D(&mut a); out(&a) }
    "const_CURVE41417_BASE_X" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_CURVE41417_BASE_X(&mut a); out(&a) }
    "const_CURVE41417_BASE_Y" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_CURVE41417_BASE_Y(&mut a); out(&a) }
    "const_CURVE41417_ORDER" => { let mut a = sc::field::mod_e414_17::ZERO; h_414_17_const_CURVE41417_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_511_187 { use super::*; use harness::f_511_187::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 10]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 10], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 10] = unsafe { std::mem::transmute_copy::<F, [i64; 10]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 10]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 10], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 10] = unsafe { std::mem::transmute_copy::<M, [i64; 10]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_511_187_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_511_187_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_511_187_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_511_187_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_511_187_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_511_187_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_511_187_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_511_187_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_511_187_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_511_187_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_511_187_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_511_187_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_511_187_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_511_187_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_511_187_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_511_187_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_511_187_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_511_187_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_511_187_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_511_187_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_511_187_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_511_187_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_511_187_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_511_187_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_511_187_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 64]; h_511_187_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_511_187_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_511_187_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_511_187_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_511_187_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_511_187_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_511_187_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_511_187_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_511_187_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_511_187_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_511_187_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_511_187_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_511_187_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_511_187_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_511_187_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_MODULUS(&mut a); out(&a) }
    "const_M_HALF" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_M_HALF(&mut a); out(&a) }
    "const_M511_BASE_X" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_M511_BASE_X(&mut a); out(&a) }
    "const_M511_BASE_Y" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_M511_BASE_Y(&mut a); out(&a) }
    "const_M511_ORDER" => { let mut a = sc::field::mod_e511_187::ZERO; h_511_187_const_M511_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod r_521_1 { use super::*; use harness::f_521_1::*;
  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; 10]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 10], F>(a) } }
  pub fn out(x: &F) -> String { let a: [i64; 10] = unsafe { std::mem::transmute_copy::<F, [i64; 10]>(x) }; show(&a) }
  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; 10]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; 10], M>(a) } }
  pub fn mout(x: &M) -> String { let a: [i64; 10] = unsafe { std::mem::transmute_copy::<M, [i64; 10]>(x) }; show(&a) }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "add_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_add_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_add_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "add_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_add_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_add_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_add_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_add_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "add_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_521_1_add_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_add_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_add_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_add_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_521_1_add_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_add_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_add_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_add_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_521_1_add_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "add_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_add_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_add_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "add_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_add_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_sub_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_sub_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sub_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_sub_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_sub_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_sub_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_sub_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "sub_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_521_1_sub_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_sub_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_sub_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_521_1_sub_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_sub_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_sub_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_521_1_sub_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "sub_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_sub_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "sub_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_sub_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_mul_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_mul_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "mul_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_mul_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_mul_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_mul_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_mul_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "mul_assign_i32" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_521_1_mul_assign_i32(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_mul_ref_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i32" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_mul_val_i32(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i32_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_mul_i32_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i16" => { let mut x0 = fe(t[0]); let x1: i16 = t[1].parse().unwrap(); h_521_1_mul_assign_i16(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_mul_ref_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i16" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_mul_val_i16(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i16_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i16 = t[2].parse().unwrap(); h_521_1_mul_i16_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_assign_i8" => { let mut x0 = fe(t[0]); let x1: i8 = t[1].parse().unwrap(); h_521_1_mul_assign_i8(&mut x0, x1); [out(&x0)].join(" ") }
    "mul_ref_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_mul_ref_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_val_i8" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_mul_val_i8(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "mul_i8_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i8 = t[2].parse().unwrap(); h_521_1_mul_i8_ref(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "div_assign_ref" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_div_assign_ref(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_assign_val" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_div_assign_val(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "div_refs@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_div_refs(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_refs" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_div_refs(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals@same" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_div_vals(&mut x0, &x1, &x1); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "div_vals" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_521_1_div_vals(&mut x0, &x1, &x2); [out(&x0), out(&x1), out(&x2)].join(" ") }
    "neg" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_neg(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "small_add_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_521_1_small_add_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_add" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_small_add(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_sub_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_521_1_small_sub_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_sub" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_small_sub(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "small_mul_assign" => { let mut x0 = fe(t[0]); let x1: i32 = t[1].parse().unwrap(); h_521_1_small_mul_assign(&mut x0, x1); [out(&x0)].join(" ") }
    "small_mul" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let x2: i32 = t[2].parse().unwrap(); h_521_1_small_mul(&mut x0, &x1, x2); [out(&x0), out(&x1)].join(" ") }
    "square" => { let mut x0 = fe(t[0]); h_521_1_square(&mut x0); [out(&x0)].join(" ") }
    "squared" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_squared(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "invert" => { let mut x0 = fe(t[0]); h_521_1_invert(&mut x0); [out(&x0)].join(" ") }
    "inverted" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_inverted(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "legendre" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_legendre(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "sqrt" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_sqrt(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize" => { let mut x0 = fe(t[0]); h_521_1_normalize(&mut x0); [out(&x0)].join(" ") }
    "normalize_self_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_521_1_normalize_self_eq(&mut x0, &x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "normalize_eq" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); let r = h_521_1_normalize_eq(&mut x0, &mut x1); [out(&x0), out(&x1), (r as i64).to_string()].join(" ") }
    "unpack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_521_1_unpack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "unpacked" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_521_1_unpacked(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_521_1_pack(&mut x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "pack_normalized" => { let mut x0 = fe(t[0]); let mut x1 = At::new(unhex(t[1])); h_521_1_pack_normalized(&x0, x1.s()); [out(&x0), hex(x1.s())].join(" ") }
    "packed" => { let mut x0 = fe(t[0]); let mut x1 = [0u8; 66]; h_521_1_packed(&mut x0, &mut x1); [out(&x0), hex(&x1)].join(" ") }
    "nbytes" => {  let r = h_521_1_nbytes(); [(r as i64).to_string()].join(" ") }
    "nbits" => {  let r = h_521_1_nbits(); [(r as i64).to_string()].join(" ") }
    "bit" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_521_1_bit(&mut x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "bit_normalized" => { let mut x0 = fe(t[0]); let x1: usize = t[1].parse().unwrap(); let r = h_521_1_bit_normalized(&x0, x1); [out(&x0), (r as i64).to_string()].join(" ") }
    "normalize_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_normalize_bitand(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_normalize_self_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitand" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_normalized_bitand(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_normalize_bitor(&mut x0, &mut x1); [out(&x0), out(&x1)].join(" ") }
    "normalize_self_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_normalize_self_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "normalized_bitor" => { let mut x0 = fe(t[0]); let mut x1 = fe(t[1]); h_521_1_normalized_bitor(&mut x0, &x1); [out(&x0), out(&x1)].join(" ") }
    "fill" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_521_1_fill(&mut x0, x1); [out(&x0)].join(" ") }
    "filled" => { let mut x0 = fe(t[0]); let x1 = t[1] == "1"; h_521_1_filled(&mut x0, x1); [out(&x0)].join(" ") }
    "mask_fill" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_521_1_mask_fill(&mut x0, x1); [mout(&x0)].join(" ") }
    "mask_filled" => { let mut x0: M = me(t[0]); let x1 = t[1] == "1"; h_521_1_mask_filled(&mut x0, x1); [mout(&x0)].join(" ") }
    "zero" => { let mut x0 = fe(t[0]); h_521_1_zero(&mut x0); [out(&x0)].join(" ") }
    "one" => { let mut x0 = fe(t[0]); h_521_1_one(&mut x0); [out(&x0)].join(" ") }
    "m_one" => { let mut x0 = fe(t[0]); h_521_1_m_one(&mut x0); [out(&x0)].join(" ") }
    "modulus" => { let mut x0 = fe(t[0]); h_521_1_modulus(&mut x0); [out(&x0)].join(" ") }
    "rand" => { let mut x0 = fe(t[0]); let q = words(t[1]); let mut x1 = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { x1.words[i] = q[i % q.len()] as u64; } h_521_1_rand(&mut x0, &mut x1); [out(&x0)].join(" ") }
    "lower_hex" => { let x0 = fe(t[0]); let mut s = format!("{:x}", x0); for q in [format!("{:#x}", x0), format!("{:+x}", x0), format!("{:.3x}", x0), format!("{:300x}", x0), format!("{:0300x}", x0), format!("{:*^7.5x}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "upper_hex" => { let x0 = fe(t[0]); let mut s = format!("{:X}", x0); for q in [format!("{:#X}", x0), format!("{:+X}", x0), format!("{:.3X}", x0), format!("{:300X}", x0), format!("{:0300X}", x0), format!("{:*^7.5X}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }
    "debug_fmt" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }
    "const_ZERO" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_ZERO(&mut a); out(&a) }
    "const_ONE" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_ONE(&mut a); out(&a) }
    "const_M_ONE" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_M_ONE(&mut a); out(&a) }
    "const_MODULUS" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_MODULUS(&mut a); out(&a) }
    "const_E521_D" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_E521_D(&mut a); out(&a) }
    "const_E521_BASE_X" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_E521_BASE_X(&mut a); out(&a) }
    "const_E521_BASE_Y" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_E521_BASE_Y(&mut a); out(&a) }
    "const_E521_ORDER" => { let mut a = sc::field::mod_e521_1::ZERO; h_521_1_const_E521_ORDER(&mut a); out(&a) }
    _ => String::from("unknown") } }
}
mod q_e222 { use super::*; use harness::c_e222::*; use super::r_222_117::{fe, out};
  fn pt(s: &str) -> P { let q: Vec<F> = s.split(':').map(|x| fe(x)).collect(); from_coords([q[0], q[1], q[2], q[3]]) }
  fn pout(p: &P) -> String { let q = coords(p); q.iter().map(|x| out(x)).collect::<Vec<_>>().join(":") }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "padd_assign_ref" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e222_padd_assign_ref(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_assign_val" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e222_padd_assign_val(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_refs" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e222_padd_refs(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_refs@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e222_padd_refs(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e222_padd_vals(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e222_padd_vals(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "pzero" => { let mut x0 = pt(t[0]); h_e222_pzero(&mut x0); [pout(&x0)].join(" ") }
    "pinit" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_e222_pinit(&mut x0, &x1, &x2); [pout(&x0), out(&x1), out(&x2)].join(" ") }
    "pdouble" => { let mut x0 = pt(t[0]); h_e222_pdouble(&mut x0); [pout(&x0)].join(" ") }
    "pdoubled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e222_pdoubled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "ptriple" => { let mut x0 = pt(t[0]); h_e222_ptriple(&mut x0); [pout(&x0)].join(" ") }
    "ptripled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e222_ptripled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "pscalar_mult" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_e222_pscalar_mult(&mut x0, &mut x1); [pout(&x0), out(&x1)].join(" ") }
    "pscalar_mult_normalized" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_e222_pscalar_mult_normalized(&mut x0, &x1); [pout(&x0), out(&x1)].join(" ") }
    "pdval" => { let mut x0 = fe(t[0]); h_e222_pdval(&mut x0); [out(&x0)].join(" ") }
    _ => String::from("unknown") } }
}
mod q_c1174 { use super::*; use harness::c_c1174::*; use super::r_251_9::{fe, out};
  fn pt(s: &str) -> P { let q: Vec<F> = s.split(':').map(|x| fe(x)).collect(); from_coords([q[0], q[1], q[2], q[3]]) }
  fn pout(p: &P) -> String { let q = coords(p); q.iter().map(|x| out(x)).collect::<Vec<_>>().join(":") }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "padd_assign_ref" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c1174_padd_assign_ref(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_assign_val" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c1174_padd_assign_val(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_refs" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c1174_padd_refs(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_refs@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c1174_padd_refs(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c1174_padd_vals(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c1174_padd_vals(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "pzero" => { let mut x0 = pt(t[0]); h_c1174_pzero(&mut x0); [pout(&x0)].join(" ") }
    "pinit" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_c1174_pinit(&mut x0, &x1, &x2); [pout(&x0), out(&x1), out(&x2)].join(" ") }
    "pdouble" => { let mut x0 = pt(t[0]); h_c1174_pdouble(&mut x0); [pout(&x0)].join(" ") }
    "pdoubled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c1174_pdoubled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "ptriple" => { let mut x0 = pt(t[0]); h_c1174_ptriple(&mut x0); [pout(&x0)].join(" ") }
    "ptripled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c1174_ptripled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "pscalar_mult" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_c1174_pscalar_mult(&mut x0, &mut x1); [pout(&x0), out(&x1)].join(" ") }
    "pscalar_mult_normalized" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_c1174_pscalar_mult_normalized(&mut x0, &x1); [pout(&x0), out(&x1)].join(" ") }
    "pdval" => { let mut x0 = fe(t[0]); h_c1174_pdval(&mut x0); [out(&x0)].join(" ") }
    _ => String::from("unknown") } }
}
mod q_e382 { use super::*; use harness::c_e382::*; use super::r_382_105::{fe, out};
  fn pt(s: &str) -> P { let q: Vec<F> = s.split(':').map(|x| fe(x)).collect(); from_coords([q[0], q[1], q[2], q[3]]) }
  fn pout(p: &P) -> String { let q = coords(p); q.iter().map(|x| out(x)).collect::<Vec<_>>().join(":") }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "padd_assign_ref" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e382_padd_assign_ref(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_assign_val" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e382_padd_assign_val(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_refs" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e382_padd_refs(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_refs@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e382_padd_refs(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e382_padd_vals(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e382_padd_vals(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "pzero" => { let mut x0 = pt(t[0]); h_e382_pzero(&mut x0); [pout(&x0)].join(" ") }
    "pinit" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_e382_pinit(&mut x0, &x1, &x2); [pout(&x0), out(&x1), out(&x2)].join(" ") }
    "pdouble" => { let mut x0 = pt(t[0]); h_e382_pdouble(&mut x0); [pout(&x0)].join(" ") }
    "pdoubled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e382_pdoubled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "ptriple" => { let mut x0 = pt(t[0]); h_e382_ptriple(&mut x0); [pout(&x0)].join(" ") }
    "ptripled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e382_ptripled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "pscalar_mult" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_e382_pscalar_mult(&mut x0, &mut x1); [pout(&x0), out(&x1)].join(" ") }
    "pscalar_mult_normalized" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_e382_pscalar_mult_normalized(&mut x0, &x1); [pout(&x0), out(&x1)].join(" ") }
    "pdval" => { let mut x0 = fe(t[0]); h_e382_pdval(&mut x0); [out(&x0)].join(" ") }
    _ => String::from("unknown") } }
}
mod q_c41417 { use super::*; use harness::c_c41417::*; use super::r_414_17::{fe, out};
  fn pt(s: &str) -> P { let q: Vec<F> = s.split(':').map(|x| fe(x)).collect(); from_coords([q[0], q[1], q[2], q[3]]) }
  fn pout(p: &P) -> String { let q = coords(p); q.iter().map(|x| out(x)).collect::<Vec<_>>().join(":") }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "padd_assign_ref" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c41417_padd_assign_ref(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_assign_val" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c41417_padd_assign_val(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_refs" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c41417_padd_refs(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_refs@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c41417_padd_refs(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c41417_padd_vals(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_c41417_padd_vals(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "pzero" => { let mut x0 = pt(t[0]); h_c41417_pzero(&mut x0); [pout(&x0)].join(" ") }
    "pinit" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_c41417_pinit(&mut x0, &x1, &x2); [pout(&x0), out(&x1), out(&x2)].join(" ") }
    "pdouble" => { let mut x0 = pt(t[0]); h_c41417_pdouble(&mut x0); [pout(&x0)].join(" ") }
    "pdoubled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c41417_pdoubled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "ptriple" => { let mut x0 = pt(t[0]); h_c41417_ptriple(&mut x0); [pout(&x0)].join(" ") }
    "ptripled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_c41417_ptripled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "pscalar_mult" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_c41417_pscalar_mult(&mut x0, &mut x1); [pout(&x0), out(&x1)].join(" ") }
    "pscalar_mult_normalized" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_c41417_pscalar_mult_normalized(&mut x0, &x1); [pout(&x0), out(&x1)].join(" ") }
    "pdval" => { let mut x0 = fe(t[0]); h_c41417_pdval(&mut x0); [out(&x0)].join(" ") }
    _ => String::from("unknown") } }
}
mod q_e521 { use super::*; use harness::c_e521::*; use super::r_521_1::{fe, out};
  fn pt(s: &str) -> P { let q: Vec<F> = s.split(':').map(|x| fe(x)).collect(); from_coords([q[0], q[1], q[2], q[3]]) }
  fn pout(p: &P) -> String { let q = coords(p); q.iter().map(|x| out(x)).collect::<Vec<_>>().join(":") }
  pub fn run(op: &str, t: &[&str]) -> String { match op {
    "padd_assign_ref" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e521_padd_assign_ref(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_assign_val" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e521_padd_assign_val(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "padd_refs" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e521_padd_refs(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_refs@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e521_padd_refs(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e521_padd_vals(&mut x0, &x1, &x2); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "padd_vals@same" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); let mut x2 = pt(t[2]); h_e521_padd_vals(&mut x0, &x1, &x1); [pout(&x0), pout(&x1), pout(&x2)].join(" ") }
    "pzero" => { let mut x0 = pt(t[0]); h_e521_pzero(&mut x0); [pout(&x0)].join(" ") }
    "pinit" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); let mut x2 = fe(t[2]); h_e521_pinit(&mut x0, &x1, &x2); [pout(&x0), out(&x1), out(&x2)].join(" ") }
    "pdouble" => { let mut x0 = pt(t[0]); h_e521_pdouble(&mut x0); [pout(&x0)].join(" ") }
    "pdoubled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e521_pdoubled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "ptriple" => { let mut x0 = pt(t[0]); h_e521_ptriple(&mut x0); [pout(&x0)].join(" ") }
    "ptripled" => { let mut x0 = pt(t[0]); let mut x1 = pt(t[1]); h_e521_ptripled(&mut x0, &x1); [pout(&x0), pout(&x1)].join(" ") }
    "pscalar_mult" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_e521_pscalar_mult(&mut x0, &mut x1); [pout(&x0), out(&x1)].join(" ") }
    "pscalar_mult_normalized" => { let mut x0 = pt(t[0]); let mut x1 = fe(t[1]); h_e521_pscalar_mult_normalized(&mut x0, &x1); [pout(&x0), out(&x1)].join(" ") }
    "pdval" => { let mut x0 = fe(t[0]); h_e521_pdval(&mut x0); [out(&x0)].join(" ") }
    _ => String::from("unknown") } }
}
fn dispatch(t: &[&str]) -> String { match t[0] {
    "221_3" => r_221_3::run(t[1], &t[2..]),
    "222_117" => r_222_117::run(t[1], &t[2..]),
    "251_9" => r_251_9::run(t[1], &t[2..]),
    "255_19" => r_255_19::run(t[1], &t[2..]),
    "382_105" => r_382_105::run(t[1], &t[2..]),
    "383_187" => r_383_187::run(t[1], &t[2..]),
    "414_17" => r_414_17::run(t[1], &t[2..]),
    "511_187" => r_511_187::run(t[1], &t[2..]),
    "521_1" => r_521_1::run(t[1], &t[2..]),
    "e222" => q_e222::run(t[1], &t[2..]),
    "c1174" => q_c1174::run(t[1], &t[2..]),
    "e382" => q_e382::run(t[1], &t[2..]),
    "c41417" => q_c41417::run(t[1], &t[2..]),
    "e521" => q_e521::run(t[1], &t[2..]),
    _ => String::from("unknown") } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').collect();
        let r = std::panic::catch_unwind(|| {
            if t[0] == "conc" {      // the first call repeated while other threads make the second: an output that differs from the one before, if any
                let mid = t.iter().position(|x| *x == "|").unwrap(); let (a, b) = (&t[1..mid], &t[mid+1..]);
                let o = dispatch(a); let start = std::time::Instant::now();
                let stop = std::sync::atomic::AtomicBool::new(false);
                let relaxed = std::sync::atomic::Ordering::Relaxed;
                let bad: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
                std::thread::scope(|s| {
                    for k in 0..4 { let (o, stop, bad, start) = (&o, &stop, &bad, &start); s.spawn(move || while !stop.load(relaxed) && start.elapsed().as_millis() < 1500 {
                        if k % 2 == 1 { let _ = std::panic::catch_unwind(|| dispatch(b)); continue; }
                        let q = std::panic::catch_unwind(|| dispatch(a)).unwrap_or_else(|_| String::from("PANIC under concurrent calls"));
                        if q != *o { *bad.lock().unwrap() = Some(q); stop.store(true, relaxed); }
                    }); }
                });
                let q = bad.lock().unwrap().take();
                return q.unwrap_or(o);
            }
            if t[0] != "again" { return dispatch(&t); }
            // the same call repeated: the first output that differs from the one before, if any
            let n: u64 = t[1].parse().unwrap(); let start = std::time::Instant::now();
            let mut o = dispatch(&t[2..]);
            for i in 1..n {
                let q = dispatch(&t[2..]);
                if q != o { return q; }
                if i % 64 == 0 && start.elapsed().as_millis() >= 2500 { break; }
            }
            o
        });
        match r {
            Ok(s) => { let _ = writeln!(so, "{}", s); let _ = so.flush(); }
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { String::from("?") };
                let _ = writeln!(so, "PANIC {}", m.replace("\n", " ")); let _ = so.flush();
            }
        }
    }
}
