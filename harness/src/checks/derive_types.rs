//! Written by tools/gen_derive.py.
#![allow(dead_code, unused_parens, clippy::all)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use super::derive::*;
use crate::explore::*;
use ssbh_lib::{CString, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};
use ssbh_write::SsbhWrite;
use std::num::*;

#[derive(SsbhWrite)]

struct T1 {  f0: u8,  f1: u16, }
impl M for T1 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc")]
struct T2 {  f0: u8,  f1: u16, }
impl M for T2 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
struct T3 {  f0: u8,  f1: u16, }
impl M for T3 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc")]
struct T4 {  f0: u8,  f1: u16, }
impl M for T4 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct T5 {  f0: u8,  f1: u16, }
impl M for T5 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc")]
struct T6 {  f0: u8,  f1: u16, }
impl M for T6 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
struct T7 {  f0: u8,  f1: u16, }
impl M for T7 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc", align_after = 4, alignment = 16)]
struct T8 {  f0: u8,  f1: u16, }
impl M for T8 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
struct T9 {  f0: u8,  f1: u16, }
impl M for T9 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, magic = b"abc")]
struct T10 {  f0: u8,  f1: u16, }
impl M for T10 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T11 {  f0: u8,  f1: u16, }
impl M for T11 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, alignment = 16, magic = b"abc")]
struct T12 {  f0: u8,  f1: u16, }
impl M for T12 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
struct T13 {  f0: u8,  f1: u16, }
impl M for T13 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc", pad_after = 3, align_after = 4)]
struct T14 {  f0: u8,  f1: u16, }
impl M for T14 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)] #[ssbhwrite(align_after = 4)] #[ssbhwrite(alignment = 16)]
struct T15 {  f0: u8,  f1: u16, }
impl M for T15 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
struct T16 {  f0: u8,  f1: u16, }
impl M for T16 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 0)]
struct T17 {  f0: u8,  f1: u16, }
impl M for T17 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T18 {  f0: u8,  f1: u16, }
impl M for T18 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
struct T19 {  f0: u8,  f1: u16, }
impl M for T19 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 0)]
struct T20 {  f0: u8,  f1: u16, }
impl M for T20 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 1)]
struct T21 {  f0: u8,  f1: u16, }
impl M for T21 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3)]
struct T22 {  f0: u8,  f1: u16, }
impl M for T22 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8)]
struct T23 {  f0: u8,  f1: u16, }
impl M for T23 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
struct T24 {  f0: u8,  f1: u16, }
impl M for T24 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
struct T25 {  f0: u8,  f1: u16, }
impl M for T25 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 7)]
struct T26 {  f0: u8,  f1: u16, }
impl M for T26 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"x")]
struct T27 {  f0: u8,  f1: u16, }
impl M for T27 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abcdefgh")]
struct T28 {  f0: u8,  f1: u16, }
impl M for T28 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T29( u8,  u16,);
impl M for T29 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc")]
struct T30( u8,  u16,);
impl M for T30 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
struct T31( u8,  u16,);
impl M for T31 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc")]
struct T32( u8,  u16,);
impl M for T32 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct T33( u8,  u16,);
impl M for T33 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc")]
struct T34( u8,  u16,);
impl M for T34 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
struct T35( u8,  u16,);
impl M for T35 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, alignment = 16, magic = b"abc")]
struct T36( u8,  u16,);
impl M for T36 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
struct T37( u8,  u16,);
impl M for T37 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, magic = b"abc")]
struct T38( u8,  u16,);
impl M for T38 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T39( u8,  u16,);
impl M for T39 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc", pad_after = 3)]
struct T40( u8,  u16,);
impl M for T40 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
struct T41( u8,  u16,);
impl M for T41 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, magic = b"abc")]
struct T42( u8,  u16,);
impl M for T42 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T43( u8,  u16,);
impl M for T43 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
struct T44( u8,  u16,);
impl M for T44 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 0)]
struct T45( u8,  u16,);
impl M for T45 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T46( u8,  u16,);
impl M for T46 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
struct T47( u8,  u16,);
impl M for T47 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 0)]
struct T48( u8,  u16,);
impl M for T48 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 1)]
struct T49( u8,  u16,);
impl M for T49 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3)]
struct T50( u8,  u16,);
impl M for T50 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8)]
struct T51( u8,  u16,);
impl M for T51 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
struct T52( u8,  u16,);
impl M for T52 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
struct T53( u8,  u16,);
impl M for T53 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 7)]
struct T54( u8,  u16,);
impl M for T54 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"x")]
struct T55( u8,  u16,);
impl M for T55 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abcdefgh")]
struct T56( u8,  u16,);
impl M for T56 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T57 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T57 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc")]
enum T58 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T58 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
enum T59 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T59 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc")]
enum T60 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T60 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
enum T61 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T61 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc")]
enum T62 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T62 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
enum T63 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T63 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc", align_after = 4)]
enum T64 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T64 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
enum T65 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T65 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, magic = b"abc")]
enum T66 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T66 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
enum T67 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T67 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc", pad_after = 3, alignment = 16)]
enum T68 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T68 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
enum T69 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T69 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc", pad_after = 3)]
enum T70 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T70 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)] #[ssbhwrite(align_after = 4)]
enum T71 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T71 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
enum T72 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T72 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 0)]
enum T73 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T73 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
enum T74 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T74 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
enum T75 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T75 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 0)]
enum T76 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T76 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 1)]
enum T77 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T77 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3)]
enum T78 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T78 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8)]
enum T79 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T79 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
enum T80 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T80 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
enum T81 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T81 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 7)]
enum T82 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T82 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"x")]
enum T83 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T83 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abcdefgh")]
enum T84 {  V0( u8,),  V1 {  v0: u16,  v1: u8, }, }
impl M for T84 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))]
#[repr(u16)] enum T85 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T85 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(magic = b"abc")]
#[repr(u16)] enum T86 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T86 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(alignment = 16)]
#[repr(u16)] enum T87 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T87 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(alignment = 16, magic = b"abc")]
#[repr(u16)] enum T88 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T88 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 4)]
#[repr(u16)] enum T89 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T89 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 4, magic = b"abc")]
#[repr(u16)] enum T90 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T90 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
#[repr(u16)] enum T91 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T91 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(magic = b"abc", align_after = 4, alignment = 16)]
#[repr(u16)] enum T92 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T92 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 3)]
#[repr(u16)] enum T93 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T93 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 3, magic = b"abc")]
#[repr(u16)] enum T94 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T94 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
#[repr(u16)] enum T95 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T95 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 3, alignment = 16, magic = b"abc")]
#[repr(u16)] enum T96 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T96 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
#[repr(u16)] enum T97 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T97 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(magic = b"abc", pad_after = 3, align_after = 4)]
#[repr(u16)] enum T98 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T98 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 3)] #[ssbhwrite(align_after = 4)] #[ssbhwrite(alignment = 16)]
#[repr(u16)] enum T99 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T99 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
#[repr(u16)] enum T100 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T100 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 0)]
#[repr(u16)] enum T101 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T101 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 1)]
#[repr(u16)] enum T102 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T102 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(pad_after = 16)]
#[repr(u16)] enum T103 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T103 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 0)]
#[repr(u16)] enum T104 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T104 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 1)]
#[repr(u16)] enum T105 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T105 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 3)]
#[repr(u16)] enum T106 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T106 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 8)]
#[repr(u16)] enum T107 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T107 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(align_after = 16)]
#[repr(u16)] enum T108 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T108 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(alignment = 1)]
#[repr(u16)] enum T109 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T109 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(alignment = 7)]
#[repr(u16)] enum T110 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T110 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(magic = b"x")]
#[repr(u16)] enum T111 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T111 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(magic = b"abcdefgh")]
#[repr(u16)] enum T112 { V0 = 0x1234, V1 = 0, V2 = 0xFFFF, }
impl M for T112 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec())); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 0u16, Self::V2 => 0xFFFFu16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(SsbhWrite)]

struct T113<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T113<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc")]
struct T114<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T114<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
struct T115<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T115<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc")]
struct T116<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T116<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct T117<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T117<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc")]
struct T118<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T118<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
struct T119<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T119<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, alignment = 16, magic = b"abc")]
struct T120<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T120<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
struct T121<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T121<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, magic = b"abc")]
struct T122<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T122<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T123<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T123<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc", pad_after = 3)]
struct T124<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T124<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
struct T125<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T125<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, magic = b"abc")]
struct T126<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T126<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T127<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T127<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
struct T128<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T128<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 0)]
struct T129<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T129<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T130<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T130<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
struct T131<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T131<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 0)]
struct T132<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T132<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 1)]
struct T133<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T133<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3)]
struct T134<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T134<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8)]
struct T135<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T135<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
struct T136<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T136<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
struct T137<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T137<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 7)]
struct T138<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T138<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"x")]
struct T139<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T139<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abcdefgh")]
struct T140<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T140<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec()));  p.extend(self.x.pieces()); p.extend(self.y.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T141 {  f0: SsbhString,  f1: u32, }
impl M for T141 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc")]
struct T142 {  f0: SsbhString,  f1: u32, }
impl M for T142 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
struct T143 {  f0: SsbhString,  f1: u32, }
impl M for T143 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc")]
struct T144 {  f0: SsbhString,  f1: u32, }
impl M for T144 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct T145 {  f0: SsbhString,  f1: u32, }
impl M for T145 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc")]
struct T146 {  f0: SsbhString,  f1: u32, }
impl M for T146 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
struct T147 {  f0: SsbhString,  f1: u32, }
impl M for T147 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc", align_after = 4)]
struct T148 {  f0: SsbhString,  f1: u32, }
impl M for T148 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
struct T149 {  f0: SsbhString,  f1: u32, }
impl M for T149 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, magic = b"abc")]
struct T150 {  f0: SsbhString,  f1: u32, }
impl M for T150 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T151 {  f0: SsbhString,  f1: u32, }
impl M for T151 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc", pad_after = 3, alignment = 16)]
struct T152 {  f0: SsbhString,  f1: u32, }
impl M for T152 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
struct T153 {  f0: SsbhString,  f1: u32, }
impl M for T153 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc", pad_after = 3)]
struct T154 {  f0: SsbhString,  f1: u32, }
impl M for T154 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)] #[ssbhwrite(align_after = 4)]
struct T155 {  f0: SsbhString,  f1: u32, }
impl M for T155 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
struct T156 {  f0: SsbhString,  f1: u32, }
impl M for T156 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 0)]
struct T157 {  f0: SsbhString,  f1: u32, }
impl M for T157 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T158 {  f0: SsbhString,  f1: u32, }
impl M for T158 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
struct T159 {  f0: SsbhString,  f1: u32, }
impl M for T159 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 0)]
struct T160 {  f0: SsbhString,  f1: u32, }
impl M for T160 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 1)]
struct T161 {  f0: SsbhString,  f1: u32, }
impl M for T161 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3)]
struct T162 {  f0: SsbhString,  f1: u32, }
impl M for T162 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8)]
struct T163 {  f0: SsbhString,  f1: u32, }
impl M for T163 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
struct T164 {  f0: SsbhString,  f1: u32, }
impl M for T164 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
struct T165 {  f0: SsbhString,  f1: u32, }
impl M for T165 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 7)]
struct T166 {  f0: SsbhString,  f1: u32, }
impl M for T166 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"x")]
struct T167 {  f0: SsbhString,  f1: u32, }
impl M for T167 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abcdefgh")]
struct T168 {  f0: SsbhString,  f1: u32, }
impl M for T168 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec()));  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T169( u8,  RelPtr64<u16>,);
impl M for T169 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc")]
struct T170( u8,  RelPtr64<u16>,);
impl M for T170 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
struct T171( u8,  RelPtr64<u16>,);
impl M for T171 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16, magic = b"abc")]
struct T172( u8,  RelPtr64<u16>,);
impl M for T172 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct T173( u8,  RelPtr64<u16>,);
impl M for T173 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4, magic = b"abc")]
struct T174( u8,  RelPtr64<u16>,);
impl M for T174 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(align_after = 4)]
struct T175( u8,  RelPtr64<u16>,);
impl M for T175 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc", align_after = 4, alignment = 16)]
struct T176( u8,  RelPtr64<u16>,);
impl M for T176 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
struct T177( u8,  RelPtr64<u16>,);
impl M for T177 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, magic = b"abc")]
struct T178( u8,  RelPtr64<u16>,);
impl M for T178 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)] #[ssbhwrite(pad_after = 3)]
struct T179( u8,  RelPtr64<u16>,);
impl M for T179 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, alignment = 16, magic = b"abc")]
struct T180( u8,  RelPtr64<u16>,);
impl M for T180 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)]
struct T181( u8,  RelPtr64<u16>,);
impl M for T181 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abc", pad_after = 3, align_after = 4)]
struct T182( u8,  RelPtr64<u16>,);
impl M for T182 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)] #[ssbhwrite(align_after = 4)] #[ssbhwrite(alignment = 16)]
struct T183( u8,  RelPtr64<u16>,);
impl M for T183 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3, align_after = 4, alignment = 16, magic = b"abc")]
struct T184( u8,  RelPtr64<u16>,);
impl M for T184 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abc".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 0)]
struct T185( u8,  RelPtr64<u16>,);
impl M for T185 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T186( u8,  RelPtr64<u16>,);
impl M for T186 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 16)]
struct T187( u8,  RelPtr64<u16>,);
impl M for T187 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 16])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 0)]
struct T188( u8,  RelPtr64<u16>,);
impl M for T188 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 1)]
struct T189( u8,  RelPtr64<u16>,);
impl M for T189 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(1)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 3)]
struct T190( u8,  RelPtr64<u16>,);
impl M for T190 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(3)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 8)]
struct T191( u8,  RelPtr64<u16>,);
impl M for T191 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 16)]
struct T192( u8,  RelPtr64<u16>,);
impl M for T192 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(16)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 1)]
struct T193( u8,  RelPtr64<u16>,);
impl M for T193 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 1 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 7)]
struct T194( u8,  RelPtr64<u16>,);
impl M for T194 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 7 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"x")]
struct T195( u8,  RelPtr64<u16>,);
impl M for T195 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"x".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"abcdefgh")]
struct T196( u8,  RelPtr64<u16>,);
impl M for T196 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"abcdefgh".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T197 {  f0: u8, #[ssbhwrite(pad_after = 2)] f1: u16, }
impl M for T197 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T198( u8, #[ssbhwrite(pad_after = 2)] u16,);
impl M for T198 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T199 {  V0( u8, #[ssbhwrite(pad_after = 2)] u16,),  V1 {  v0: u16,  v1: u8, #[ssbhwrite(pad_after = 2)] v2: u8, }, }
impl M for T199 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.extend(v2.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T200 {  f0: u8, #[ssbhwrite(align_after = 8)] f1: u16, }
impl M for T200 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T201( u8, #[ssbhwrite(align_after = 8)] u16,);
impl M for T201 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T202 {  V0( u8, #[ssbhwrite(align_after = 8)] u16,),  V1 {  v0: u16,  v1: u8, #[ssbhwrite(align_after = 8)] v2: u8, }, }
impl M for T202 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::End(8)); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.extend(v2.pieces()); p.push(P::End(8)); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T203 { #[ssbhwrite(align_after = 4)] f0: u8,  f1: u16, }
impl M for T203 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::End(4)); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T204(#[ssbhwrite(align_after = 4)] u8,  u16,);
impl M for T204 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::End(4)); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T205 {  V0(#[ssbhwrite(align_after = 4)] u8,  u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] v1: u8,  v2: u8, }, }
impl M for T205 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::End(4)); p.extend(v1.pieces()); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::End(4)); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T206 { #[ssbhwrite(align_after = 4)] f0: u8, #[ssbhwrite(pad_after = 2)] f1: u16, }
impl M for T206 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::End(4)); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T207(#[ssbhwrite(align_after = 4)] u8, #[ssbhwrite(pad_after = 2)] u16,);
impl M for T207 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::End(4)); p.extend(self.1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T208 {  V0(#[ssbhwrite(align_after = 4)] u8, #[ssbhwrite(pad_after = 2)] u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] v1: u8, #[ssbhwrite(pad_after = 2)] v2: u8, }, }
impl M for T208 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::End(4)); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::End(4)); p.extend(v2.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T209 { #[ssbhwrite(align_after = 4)] f0: u8, #[ssbhwrite(align_after = 8)] f1: u16, }
impl M for T209 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::End(4)); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T210(#[ssbhwrite(align_after = 4)] u8, #[ssbhwrite(align_after = 8)] u16,);
impl M for T210 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::End(4)); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T211 {  V0(#[ssbhwrite(align_after = 4)] u8, #[ssbhwrite(align_after = 8)] u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] v1: u8, #[ssbhwrite(align_after = 8)] v2: u8, }, }
impl M for T211 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::End(4)); p.extend(v1.pieces()); p.push(P::End(8)); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::End(4)); p.extend(v2.pieces()); p.push(P::End(8)); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T212 { #[ssbhwrite(pad_after = 1)] f0: u8,  f1: u16, }
impl M for T212 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 1])); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T213(#[ssbhwrite(pad_after = 1)] u8,  u16,);
impl M for T213 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 1])); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T214 {  V0(#[ssbhwrite(pad_after = 1)] u8,  u16,),  V1 {  v0: u16, #[ssbhwrite(pad_after = 1)] v1: u8,  v2: u8, }, }
impl M for T214 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 1])); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T215 { #[ssbhwrite(pad_after = 1)] f0: u8, #[ssbhwrite(pad_after = 2)] f1: u16, }
impl M for T215 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 1])); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T216(#[ssbhwrite(pad_after = 1)] u8, #[ssbhwrite(pad_after = 2)] u16,);
impl M for T216 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 1])); p.extend(self.1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T217 {  V0(#[ssbhwrite(pad_after = 1)] u8, #[ssbhwrite(pad_after = 2)] u16,),  V1 {  v0: u16, #[ssbhwrite(pad_after = 1)] v1: u8, #[ssbhwrite(pad_after = 2)] v2: u8, }, }
impl M for T217 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 1])); p.extend(v2.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T218 { #[ssbhwrite(pad_after = 1)] f0: u8, #[ssbhwrite(align_after = 8)] f1: u16, }
impl M for T218 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 1])); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T219(#[ssbhwrite(pad_after = 1)] u8, #[ssbhwrite(align_after = 8)] u16,);
impl M for T219 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 1])); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T220 {  V0(#[ssbhwrite(pad_after = 1)] u8, #[ssbhwrite(align_after = 8)] u16,),  V1 {  v0: u16, #[ssbhwrite(pad_after = 1)] v1: u8, #[ssbhwrite(align_after = 8)] v2: u8, }, }
impl M for T220 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::End(8)); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 1])); p.extend(v2.pieces()); p.push(P::End(8)); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T221 { #[ssbhwrite(pad_after = 1, align_after = 4)] f0: u8,  f1: u16, }
impl M for T221 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T222(#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 1)] u8,  u16,);
impl M for T222 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T223 {  V0(#[ssbhwrite(pad_after = 1, align_after = 4)] u8,  u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 1)] v1: u8,  v2: u8, }, }
impl M for T223 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(v1.pieces()); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T224 { #[ssbhwrite(pad_after = 1, align_after = 4)] f0: u8, #[ssbhwrite(pad_after = 2)] f1: u16, }
impl M for T224 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T225(#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 1)] u8, #[ssbhwrite(pad_after = 2)] u16,);
impl M for T225 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(self.1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T226 {  V0(#[ssbhwrite(pad_after = 1, align_after = 4)] u8, #[ssbhwrite(pad_after = 2)] u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 1)] v1: u8, #[ssbhwrite(pad_after = 2)] v2: u8, }, }
impl M for T226 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(v2.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T227 { #[ssbhwrite(pad_after = 1, align_after = 4)] f0: u8, #[ssbhwrite(align_after = 8)] f1: u16, }
impl M for T227 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T228(#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 1)] u8, #[ssbhwrite(align_after = 8)] u16,);
impl M for T228 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T229 {  V0(#[ssbhwrite(pad_after = 1, align_after = 4)] u8, #[ssbhwrite(align_after = 8)] u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 1)] v1: u8, #[ssbhwrite(align_after = 8)] v2: u8, }, }
impl M for T229 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(v1.pieces()); p.push(P::End(8)); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 1])); p.push(P::End(4)); p.extend(v2.pieces()); p.push(P::End(8)); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T230 { #[ssbhwrite(pad_after = 3)] f0: u8,  f1: u16, }
impl M for T230 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 3])); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T231(#[ssbhwrite(pad_after = 3)] u8,  u16,);
impl M for T231 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 3])); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T232 {  V0(#[ssbhwrite(pad_after = 3)] u8,  u16,),  V1 {  v0: u16, #[ssbhwrite(pad_after = 3)] v1: u8,  v2: u8, }, }
impl M for T232 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T233 { #[ssbhwrite(pad_after = 3)] f0: u8, #[ssbhwrite(pad_after = 2)] f1: u16, }
impl M for T233 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 3])); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T234(#[ssbhwrite(pad_after = 3)] u8, #[ssbhwrite(pad_after = 2)] u16,);
impl M for T234 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 3])); p.extend(self.1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T235 {  V0(#[ssbhwrite(pad_after = 3)] u8, #[ssbhwrite(pad_after = 2)] u16,),  V1 {  v0: u16, #[ssbhwrite(pad_after = 3)] v1: u8, #[ssbhwrite(pad_after = 2)] v2: u8, }, }
impl M for T235 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); p.extend(v2.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T236 { #[ssbhwrite(pad_after = 3)] f0: u8, #[ssbhwrite(align_after = 8)] f1: u16, }
impl M for T236 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 3])); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T237(#[ssbhwrite(pad_after = 3)] u8, #[ssbhwrite(align_after = 8)] u16,);
impl M for T237 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 3])); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T238 {  V0(#[ssbhwrite(pad_after = 3)] u8, #[ssbhwrite(align_after = 8)] u16,),  V1 {  v0: u16, #[ssbhwrite(pad_after = 3)] v1: u8, #[ssbhwrite(align_after = 8)] v2: u8, }, }
impl M for T238 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.push(P::End(8)); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); p.extend(v2.pieces()); p.push(P::End(8)); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T239 { #[ssbhwrite(pad_after = 3, align_after = 4)] f0: u8,  f1: u16, }
impl M for T239 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T240(#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)] u8,  u16,);
impl M for T240 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T241 {  V0(#[ssbhwrite(pad_after = 3, align_after = 4)] u8,  u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)] v1: u8,  v2: u8, }, }
impl M for T241 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(v1.pieces()); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T242 { #[ssbhwrite(pad_after = 3, align_after = 4)] f0: u8, #[ssbhwrite(pad_after = 2)] f1: u16, }
impl M for T242 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T243(#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)] u8, #[ssbhwrite(pad_after = 2)] u16,);
impl M for T243 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(self.1.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T244 {  V0(#[ssbhwrite(pad_after = 3, align_after = 4)] u8, #[ssbhwrite(pad_after = 2)] u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)] v1: u8, #[ssbhwrite(pad_after = 2)] v2: u8, }, }
impl M for T244 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(v2.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T245 { #[ssbhwrite(pad_after = 3, align_after = 4)] f0: u8, #[ssbhwrite(align_after = 8)] f1: u16, }
impl M for T245 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(self.f1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T246(#[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)] u8, #[ssbhwrite(align_after = 8)] u16,);
impl M for T246 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(self.1.pieces()); p.push(P::End(8)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T247 {  V0(#[ssbhwrite(pad_after = 3, align_after = 4)] u8, #[ssbhwrite(align_after = 8)] u16,),  V1 {  v0: u16, #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 3)] v1: u8, #[ssbhwrite(align_after = 8)] v2: u8, }, }
impl M for T247 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c), M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), v2: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(v1.pieces()); p.push(P::End(8)); } Self::V1 { v0, v1, v2 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); p.push(P::End(4)); p.extend(v2.pieces()); p.push(P::End(8)); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T248 { #[ssbhwrite(align_after = 4)] V0( u8,), #[ssbhwrite(align_after = 4)] V1 {  v0: u8,  v1: u16, }, #[ssbhwrite(align_after = 4)] V2(#[ssbhwrite(pad_after = 1)] u16,  u8,),  V3( u8,), }
impl M for T248 {
    fn make(c: &mut Ctx) -> Self { match c.choose(4) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, 2 => Self::V2(M::make(c), M::make(c),), _ => Self::V3(M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); p.push(P::End(4)); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::End(4)); } Self::V2(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::End(4)); } Self::V3(v0) => {  p.extend(v0.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
enum T249 { #[ssbhwrite(align_after = 4)] V0( u8,), #[ssbhwrite(align_after = 4)] V1 {  v0: u8,  v1: u16, }, #[ssbhwrite(align_after = 4)] V2(#[ssbhwrite(pad_after = 1)] u16,  u8,),  V3( u8,), }
impl M for T249 {
    fn make(c: &mut Ctx) -> Self { match c.choose(4) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, 2 => Self::V2(M::make(c), M::make(c),), _ => Self::V3(M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); p.push(P::End(4)); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::End(4)); } Self::V2(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::End(4)); } Self::V3(v0) => {  p.extend(v0.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T250 { #[ssbhwrite(pad_after = 2)] V0( u8,), #[ssbhwrite(pad_after = 2)] V1 {  v0: u8,  v1: u16, }, #[ssbhwrite(pad_after = 2)] V2(#[ssbhwrite(pad_after = 1)] u16,  u8,),  V3( u8,), }
impl M for T250 {
    fn make(c: &mut Ctx) -> Self { match c.choose(4) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, 2 => Self::V2(M::make(c), M::make(c),), _ => Self::V3(M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V2(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V3(v0) => {  p.extend(v0.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
enum T251 { #[ssbhwrite(pad_after = 2)] V0( u8,), #[ssbhwrite(pad_after = 2)] V1 {  v0: u8,  v1: u16, }, #[ssbhwrite(pad_after = 2)] V2(#[ssbhwrite(pad_after = 1)] u16,  u8,),  V3( u8,), }
impl M for T251 {
    fn make(c: &mut Ctx) -> Self { match c.choose(4) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, 2 => Self::V2(M::make(c), M::make(c),), _ => Self::V3(M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 2])); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V2(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } Self::V3(v0) => {  p.extend(v0.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T252 { #[ssbhwrite(pad_after = 2, align_after = 4)] V0( u8,), #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 2)] V1 {  v0: u8,  v1: u16, }, #[ssbhwrite(pad_after = 2, align_after = 4)] V2(#[ssbhwrite(pad_after = 1)] u16,  u8,),  V3( u8,), }
impl M for T252 {
    fn make(c: &mut Ctx) -> Self { match c.choose(4) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, 2 => Self::V2(M::make(c), M::make(c),), _ => Self::V3(M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 2])); p.push(P::End(4)); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); p.push(P::End(4)); } Self::V2(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); p.push(P::End(4)); } Self::V3(v0) => {  p.extend(v0.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 3)]
enum T253 { #[ssbhwrite(pad_after = 2, align_after = 4)] V0( u8,), #[ssbhwrite(align_after = 4)] #[ssbhwrite(pad_after = 2)] V1 {  v0: u8,  v1: u16, }, #[ssbhwrite(pad_after = 2, align_after = 4)] V2(#[ssbhwrite(pad_after = 1)] u16,  u8,),  V3( u8,), }
impl M for T253 {
    fn make(c: &mut Ctx) -> Self { match c.choose(4) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, 2 => Self::V2(M::make(c), M::make(c),), _ => Self::V3(M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 2])); p.push(P::End(4)); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); p.push(P::End(4)); } Self::V2(v0, v1) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 1])); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); p.push(P::End(4)); } Self::V3(v0) => {  p.extend(v0.pieces()); } } p.push(P::B(vec![0; 3])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T254 {  f0: u8,  f1: u8,  f2: u16, }
impl M for T254 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T255( u8,  u8,);
impl M for T255 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T256 {  V0( u8,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: u8, }, }
impl M for T256 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T257 {  f0: u8,  f1: u16,  f2: u16, }
impl M for T257 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T258 {  f0: u8,  f1: u32,  f2: u16, }
impl M for T258 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T259 {  f0: u8,  f1: u64,  f2: u16, }
impl M for T259 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T260 {  f0: u8,  f1: u128,  f2: u16, }
impl M for T260 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T261( u128,  u128,);
impl M for T261 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T262 {  V0( u128,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: u128, }, }
impl M for T262 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T263 {  f0: u8,  f1: i8,  f2: u16, }
impl M for T263 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T264 {  f0: u8,  f1: i16,  f2: u16, }
impl M for T264 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T265 {  f0: u8,  f1: i32,  f2: u16, }
impl M for T265 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T266 {  f0: u8,  f1: i64,  f2: u16, }
impl M for T266 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T267 {  f0: u8,  f1: i128,  f2: u16, }
impl M for T267 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T268 {  f0: u8,  f1: f32,  f2: u16, }
impl M for T268 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T269 {  f0: u8,  f1: f64,  f2: u16, }
impl M for T269 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T270 {  f0: u8,  f1: NonZeroU8,  f2: u16, }
impl M for T270 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T271 {  f0: u8,  f1: NonZeroU16,  f2: u16, }
impl M for T271 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T272 {  f0: u8,  f1: NonZeroU32,  f2: u16, }
impl M for T272 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T273 {  f0: u8,  f1: NonZeroU64,  f2: u16, }
impl M for T273 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T274 {  f0: u8,  f1: NonZeroU128,  f2: u16, }
impl M for T274 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T275 {  f0: u8,  f1: NonZeroI8,  f2: u16, }
impl M for T275 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T276 {  f0: u8,  f1: NonZeroI16,  f2: u16, }
impl M for T276 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T277 {  f0: u8,  f1: NonZeroI32,  f2: u16, }
impl M for T277 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T278 {  f0: u8,  f1: NonZeroI64,  f2: u16, }
impl M for T278 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T279 {  f0: u8,  f1: NonZeroI128,  f2: u16, }
impl M for T279 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T280 {  f0: u8,  f1: NonZeroUsize,  f2: u16, }
impl M for T280 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T281 {  f0: u8,  f1: (),  f2: u16, }
impl M for T281 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T282( (),  (),);
impl M for T282 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T283 {  V0( (),), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: (), }, }
impl M for T283 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T284 {  f0: u8,  f1: [u8; 3],  f2: u16, }
impl M for T284 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T285( [u8; 3],  [u8; 3],);
impl M for T285 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T286 {  V0( [u8; 3],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [u8; 3], }, }
impl M for T286 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T287 {  f0: u8,  f1: [u16; 0],  f2: u16, }
impl M for T287 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T288( [u16; 0],  [u16; 0],);
impl M for T288 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T289 {  V0( [u16; 0],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [u16; 0], }, }
impl M for T289 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T290 {  f0: u8,  f1: [u32; 1],  f2: u16, }
impl M for T290 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T291( [u32; 1],  [u32; 1],);
impl M for T291 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T292 {  V0( [u32; 1],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [u32; 1], }, }
impl M for T292 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T293 {  f0: u8,  f1: [[u8; 2]; 3],  f2: u16, }
impl M for T293 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T294( [[u8; 2]; 3],  [[u8; 2]; 3],);
impl M for T294 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T295 {  V0( [[u8; 2]; 3],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [[u8; 2]; 3], }, }
impl M for T295 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T296 {  f0: u8,  f1: Vec<u8>,  f2: u16, }
impl M for T296 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T297( Vec<u8>,  Vec<u8>,);
impl M for T297 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T298 {  V0( Vec<u8>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<u8>, }, }
impl M for T298 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T299 {  f0: u8,  f1: Vec<u64>,  f2: u16, }
impl M for T299 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T300( Vec<u64>,  Vec<u64>,);
impl M for T300 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T301 {  V0( Vec<u64>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<u64>, }, }
impl M for T301 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T302 {  f0: u8,  f1: Option<u8>,  f2: u16, }
impl M for T302 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T303( Option<u8>,  Option<u8>,);
impl M for T303 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T304 {  V0( Option<u8>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<u8>, }, }
impl M for T304 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T305 {  f0: u8,  f1: Option<u32>,  f2: u16, }
impl M for T305 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T306( Option<u32>,  Option<u32>,);
impl M for T306 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T307 {  V0( Option<u32>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<u32>, }, }
impl M for T307 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T308 {  f0: u8,  f1: Option<NonZeroU16>,  f2: u16, }
impl M for T308 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T309( Option<NonZeroU16>,  Option<NonZeroU16>,);
impl M for T309 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T310 {  V0( Option<NonZeroU16>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<NonZeroU16>, }, }
impl M for T310 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T311 {  f0: u8,  f1: Vec<Option<u16>>,  f2: u16, }
impl M for T311 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T312( Vec<Option<u16>>,  Vec<Option<u16>>,);
impl M for T312 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T313 {  V0( Vec<Option<u16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<Option<u16>>, }, }
impl M for T313 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T314 {  f0: u8,  f1: Option<Vec<u8>>,  f2: u16, }
impl M for T314 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T315( Option<Vec<u8>>,  Option<Vec<u8>>,);
impl M for T315 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T316 {  V0( Option<Vec<u8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<Vec<u8>>, }, }
impl M for T316 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T317 {  f0: u8,  f1: Vec<Vec<u8>>,  f2: u16, }
impl M for T317 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T318( Vec<Vec<u8>>,  Vec<Vec<u8>>,);
impl M for T318 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T319 {  V0( Vec<Vec<u8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<Vec<u8>>, }, }
impl M for T319 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T320 {  f0: u8,  f1: [Option<u8>; 2],  f2: u16, }
impl M for T320 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T321( [Option<u8>; 2],  [Option<u8>; 2],);
impl M for T321 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T322 {  V0( [Option<u8>; 2],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [Option<u8>; 2], }, }
impl M for T322 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T323 {  f0: u8,  f1: [Vec<u16>; 2],  f2: u16, }
impl M for T323 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T324( [Vec<u16>; 2],  [Vec<u16>; 2],);
impl M for T324 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T325 {  V0( [Vec<u16>; 2],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [Vec<u16>; 2], }, }
impl M for T325 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T326 {  f0: u8,  f1: &'static [u16],  f2: u16, }
impl M for T326 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T327( &'static [u16],  &'static [u16],);
impl M for T327 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T328 {  V0( &'static [u16],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: &'static [u16], }, }
impl M for T328 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T329 {  f0: u8,  f1: SsbhString,  f2: u16, }
impl M for T329 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T330( SsbhString,  SsbhString,);
impl M for T330 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T331 {  V0( SsbhString,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhString, }, }
impl M for T331 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T332 {  f0: u8,  f1: SsbhString8,  f2: u16, }
impl M for T332 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T333( SsbhString8,  SsbhString8,);
impl M for T333 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T334 {  V0( SsbhString8,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhString8, }, }
impl M for T334 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T335 {  f0: u8,  f1: SsbhByteBuffer,  f2: u16, }
impl M for T335 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T336( SsbhByteBuffer,  SsbhByteBuffer,);
impl M for T336 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T337 {  V0( SsbhByteBuffer,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhByteBuffer, }, }
impl M for T337 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T338 {  f0: u8,  f1: Option<SsbhString>,  f2: u16, }
impl M for T338 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T339( Option<SsbhString>,  Option<SsbhString>,);
impl M for T339 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T340 {  V0( Option<SsbhString>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<SsbhString>, }, }
impl M for T340 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T341 {  f0: u8,  f1: [SsbhString; 2],  f2: u16, }
impl M for T341 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T342( [SsbhString; 2],  [SsbhString; 2],);
impl M for T342 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T343 {  V0( [SsbhString; 2],), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: [SsbhString; 2], }, }
impl M for T343 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T344 {  f0: u8,  f1: Vec<SsbhString>,  f2: u16, }
impl M for T344 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T345( Vec<SsbhString>,  Vec<SsbhString>,);
impl M for T345 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T346 {  V0( Vec<SsbhString>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<SsbhString>, }, }
impl M for T346 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T347 {  f0: u8,  f1: RelPtr64<u8>,  f2: u16, }
impl M for T347 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T348( RelPtr64<u8>,  RelPtr64<u8>,);
impl M for T348 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T349 {  V0( RelPtr64<u8>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<u8>, }, }
impl M for T349 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T350 {  f0: u8,  f1: RelPtr64<u64>,  f2: u16, }
impl M for T350 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T351( RelPtr64<u64>,  RelPtr64<u64>,);
impl M for T351 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T352 {  V0( RelPtr64<u64>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<u64>, }, }
impl M for T352 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T353 {  f0: u8,  f1: RelPtr64<[u16; 3]>,  f2: u16, }
impl M for T353 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T354( RelPtr64<[u16; 3]>,  RelPtr64<[u16; 3]>,);
impl M for T354 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T355 {  V0( RelPtr64<[u16; 3]>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<[u16; 3]>, }, }
impl M for T355 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T356 {  f0: u8,  f1: RelPtr64<SsbhString>,  f2: u16, }
impl M for T356 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T357( RelPtr64<SsbhString>,  RelPtr64<SsbhString>,);
impl M for T357 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T358 {  V0( RelPtr64<SsbhString>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<SsbhString>, }, }
impl M for T358 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T359 {  f0: u8,  f1: RelPtr64<SsbhArray<u16>>,  f2: u16, }
impl M for T359 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T360( RelPtr64<SsbhArray<u16>>,  RelPtr64<SsbhArray<u16>>,);
impl M for T360 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T361 {  V0( RelPtr64<SsbhArray<u16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<SsbhArray<u16>>, }, }
impl M for T361 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T362 {  f0: u8,  f1: RelPtr64<RelPtr64<u8>>,  f2: u16, }
impl M for T362 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T363( RelPtr64<RelPtr64<u8>>,  RelPtr64<RelPtr64<u8>>,);
impl M for T363 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T364 {  V0( RelPtr64<RelPtr64<u8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<RelPtr64<u8>>, }, }
impl M for T364 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T365 {  f0: u8,  f1: Ptr64<u32>,  f2: u16, }
impl M for T365 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T366( Ptr64<u32>,  Ptr64<u32>,);
impl M for T366 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T367 {  V0( Ptr64<u32>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<u32>, }, }
impl M for T367 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T368 {  f0: u8,  f1: Ptr64<[u8; 5]>,  f2: u16, }
impl M for T368 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T369( Ptr64<[u8; 5]>,  Ptr64<[u8; 5]>,);
impl M for T369 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T370 {  V0( Ptr64<[u8; 5]>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<[u8; 5]>, }, }
impl M for T370 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T371 {  f0: u8,  f1: Ptr64<SsbhString>,  f2: u16, }
impl M for T371 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T372( Ptr64<SsbhString>,  Ptr64<SsbhString>,);
impl M for T372 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T373 {  V0( Ptr64<SsbhString>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<SsbhString>, }, }
impl M for T373 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T374 {  f0: u8,  f1: RelPtr64<Option<u32>>,  f2: u16, }
impl M for T374 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T375( RelPtr64<Option<u32>>,  RelPtr64<Option<u32>>,);
impl M for T375 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T376 {  V0( RelPtr64<Option<u32>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<Option<u32>>, }, }
impl M for T376 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T377 {  f0: u8,  f1: RelPtr64<Option<SsbhString>>,  f2: u16, }
impl M for T377 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T378( RelPtr64<Option<SsbhString>>,  RelPtr64<Option<SsbhString>>,);
impl M for T378 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T379 {  V0( RelPtr64<Option<SsbhString>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<Option<SsbhString>>, }, }
impl M for T379 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T380 {  f0: u8,  f1: Ptr64<Option<u64>>,  f2: u16, }
impl M for T380 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T381( Ptr64<Option<u64>>,  Ptr64<Option<u64>>,);
impl M for T381 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T382 {  V0( Ptr64<Option<u64>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<Option<u64>>, }, }
impl M for T382 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T383 {  f0: u8,  f1: RelPtr64<Vec<u16>>,  f2: u16, }
impl M for T383 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T384( RelPtr64<Vec<u16>>,  RelPtr64<Vec<u16>>,);
impl M for T384 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T385 {  V0( RelPtr64<Vec<u16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<Vec<u16>>, }, }
impl M for T385 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T386 {  f0: u8,  f1: RelPtr64<[Option<u32>; 2]>,  f2: u16, }
impl M for T386 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T387( RelPtr64<[Option<u32>; 2]>,  RelPtr64<[Option<u32>; 2]>,);
impl M for T387 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T388 {  V0( RelPtr64<[Option<u32>; 2]>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<[Option<u32>; 2]>, }, }
impl M for T388 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T389 {  f0: u8,  f1: RelPtr64<()>,  f2: u16, }
impl M for T389 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T390( RelPtr64<()>,  RelPtr64<()>,);
impl M for T390 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T391 {  V0( RelPtr64<()>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<()>, }, }
impl M for T391 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T392 {  f0: u8,  f1: Ptr64<NonZeroU32>,  f2: u16, }
impl M for T392 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T393( Ptr64<NonZeroU32>,  Ptr64<NonZeroU32>,);
impl M for T393 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T394 {  V0( Ptr64<NonZeroU32>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<NonZeroU32>, }, }
impl M for T394 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T395 {  f0: u8,  f1: RelPtr64<Option<NonZeroU64>>,  f2: u16, }
impl M for T395 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T396( RelPtr64<Option<NonZeroU64>>,  RelPtr64<Option<NonZeroU64>>,);
impl M for T396 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T397 {  V0( RelPtr64<Option<NonZeroU64>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<Option<NonZeroU64>>, }, }
impl M for T397 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T398 {  f0: u8,  f1: RelPtr64<SsbhByteBuffer>,  f2: u16, }
impl M for T398 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T399( RelPtr64<SsbhByteBuffer>,  RelPtr64<SsbhByteBuffer>,);
impl M for T399 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T400 {  V0( RelPtr64<SsbhByteBuffer>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<SsbhByteBuffer>, }, }
impl M for T400 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T401 {  f0: u8,  f1: Ptr64<SsbhArray<u32>>,  f2: u16, }
impl M for T401 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T402( Ptr64<SsbhArray<u32>>,  Ptr64<SsbhArray<u32>>,);
impl M for T402 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T403 {  V0( Ptr64<SsbhArray<u32>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<SsbhArray<u32>>, }, }
impl M for T403 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T404 {  f0: u8,  f1: SsbhArray<u8>,  f2: u16, }
impl M for T404 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T405( SsbhArray<u8>,  SsbhArray<u8>,);
impl M for T405 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T406 {  V0( SsbhArray<u8>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<u8>, }, }
impl M for T406 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T407 {  f0: u8,  f1: SsbhArray<u16>,  f2: u16, }
impl M for T407 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T408( SsbhArray<u16>,  SsbhArray<u16>,);
impl M for T408 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T409 {  V0( SsbhArray<u16>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<u16>, }, }
impl M for T409 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T410 {  f0: u8,  f1: SsbhArray<SsbhString>,  f2: u16, }
impl M for T410 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T411( SsbhArray<SsbhString>,  SsbhArray<SsbhString>,);
impl M for T411 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T412 {  V0( SsbhArray<SsbhString>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<SsbhString>, }, }
impl M for T412 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T413 {  f0: u8,  f1: SsbhArray<SsbhArray<u8>>,  f2: u16, }
impl M for T413 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T414( SsbhArray<SsbhArray<u8>>,  SsbhArray<SsbhArray<u8>>,);
impl M for T414 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T415 {  V0( SsbhArray<SsbhArray<u8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<SsbhArray<u8>>, }, }
impl M for T415 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T416 {  f0: u8,  f1: SsbhArray<RelPtr64<u16>>,  f2: u16, }
impl M for T416 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T417( SsbhArray<RelPtr64<u16>>,  SsbhArray<RelPtr64<u16>>,);
impl M for T417 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T418 {  V0( SsbhArray<RelPtr64<u16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<RelPtr64<u16>>, }, }
impl M for T418 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T419 {  f0: u8,  f1: SsbhArray<Option<u16>>,  f2: u16, }
impl M for T419 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T420( SsbhArray<Option<u16>>,  SsbhArray<Option<u16>>,);
impl M for T420 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T421 {  V0( SsbhArray<Option<u16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<Option<u16>>, }, }
impl M for T421 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T422 {  f0: u8,  f1: SsbhArray<SsbhByteBuffer>,  f2: u16, }
impl M for T422 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T423( SsbhArray<SsbhByteBuffer>,  SsbhArray<SsbhByteBuffer>,);
impl M for T423 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T424 {  V0( SsbhArray<SsbhByteBuffer>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<SsbhByteBuffer>, }, }
impl M for T424 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T425 {  f0: u8,  f1: CString<1>,  f2: u16, }
impl M for T425 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T426( CString<1>,  CString<1>,);
impl M for T426 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T427 {  V0( CString<1>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: CString<1>, }, }
impl M for T427 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T428 {  f0: u8,  f1: CString<4>,  f2: u16, }
impl M for T428 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T429( CString<4>,  CString<4>,);
impl M for T429 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T430 {  V0( CString<4>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: CString<4>, }, }
impl M for T430 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T431 {  f0: u8,  f1: Option<CString<1>>,  f2: u16, }
impl M for T431 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T432( Option<CString<1>>,  Option<CString<1>>,);
impl M for T432 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T433 {  V0( Option<CString<1>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<CString<1>>, }, }
impl M for T433 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T434 {  f0: u8,  f1: Vec<CString<1>>,  f2: u16, }
impl M for T434 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T435( Vec<CString<1>>,  Vec<CString<1>>,);
impl M for T435 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T436 {  V0( Vec<CString<1>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<CString<1>>, }, }
impl M for T436 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T437 {  f0: u8,  f1: SsbhArray<CString<1>>,  f2: u16, }
impl M for T437 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T438( SsbhArray<CString<1>>,  SsbhArray<CString<1>>,);
impl M for T438 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T439 {  V0( SsbhArray<CString<1>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<CString<1>>, }, }
impl M for T439 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T440 {  f0: u8,  f1: SsbhArray<CString<4>>,  f2: u16, }
impl M for T440 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T441( SsbhArray<CString<4>>,  SsbhArray<CString<4>>,);
impl M for T441 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T442 {  V0( SsbhArray<CString<4>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<CString<4>>, }, }
impl M for T442 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T443 {  f0: u8,  f1: RelPtr64<CString<1>>,  f2: u16, }
impl M for T443 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T444( RelPtr64<CString<1>>,  RelPtr64<CString<1>>,);
impl M for T444 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T445 {  V0( RelPtr64<CString<1>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<CString<1>>, }, }
impl M for T445 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T446 {  f0: u8,  f1: RelPtr64<CString<8>>,  f2: u16, }
impl M for T446 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T447( RelPtr64<CString<8>>,  RelPtr64<CString<8>>,);
impl M for T447 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T448 {  V0( RelPtr64<CString<8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<CString<8>>, }, }
impl M for T448 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T449 {  f0: u8,  f1: RelPtr64<Vec<CString<1>>>,  f2: u16, }
impl M for T449 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T450( RelPtr64<Vec<CString<1>>>,  RelPtr64<Vec<CString<1>>>,);
impl M for T450 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T451 {  V0( RelPtr64<Vec<CString<1>>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: RelPtr64<Vec<CString<1>>>, }, }
impl M for T451 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T452 {  f0: u8,  f1: Ptr64<CString<16>>,  f2: u16, }
impl M for T452 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T453( Ptr64<CString<16>>,  Ptr64<CString<16>>,);
impl M for T453 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T454 {  V0( Ptr64<CString<16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr64<CString<16>>, }, }
impl M for T454 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T455 {  f0: u8,  f1: Ptr16<u8>,  f2: u16, }
impl M for T455 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T456( Ptr16<u8>,  Ptr16<u8>,);
impl M for T456 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T457 {  V0( Ptr16<u8>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr16<u8>, }, }
impl M for T457 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T458 {  f0: u8,  f1: Ptr16<u64>,  f2: u16, }
impl M for T458 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T459( Ptr16<u64>,  Ptr16<u64>,);
impl M for T459 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T460 {  V0( Ptr16<u64>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr16<u64>, }, }
impl M for T460 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T461 {  f0: u8,  f1: Ptr32<SsbhString>,  f2: u16, }
impl M for T461 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T462( Ptr32<SsbhString>,  Ptr32<SsbhString>,);
impl M for T462 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T463 {  V0( Ptr32<SsbhString>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr32<SsbhString>, }, }
impl M for T463 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T464 {  f0: u8,  f1: Ptr32<u16>,  f2: u16, }
impl M for T464 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T465( Ptr32<u16>,  Ptr32<u16>,);
impl M for T465 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T466 {  V0( Ptr32<u16>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr32<u16>, }, }
impl M for T466 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T467 {  f0: u8,  f1: Ptr16<Ptr32<u16>>,  f2: u16, }
impl M for T467 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T468( Ptr16<Ptr32<u16>>,  Ptr16<Ptr32<u16>>,);
impl M for T468 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T469 {  V0( Ptr16<Ptr32<u16>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Ptr16<Ptr32<u16>>, }, }
impl M for T469 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T470 {  f0: u8,  f1: Vec<Ptr16<u8>>,  f2: u16, }
impl M for T470 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T471( Vec<Ptr16<u8>>,  Vec<Ptr16<u8>>,);
impl M for T471 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T472 {  V0( Vec<Ptr16<u8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Vec<Ptr16<u8>>, }, }
impl M for T472 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T473 {  f0: u8,  f1: SsbhArray<Ptr16<u8>>,  f2: u16, }
impl M for T473 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T474( SsbhArray<Ptr16<u8>>,  SsbhArray<Ptr16<u8>>,);
impl M for T474 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T475 {  V0( SsbhArray<Ptr16<u8>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: SsbhArray<Ptr16<u8>>, }, }
impl M for T475 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T476 {  f0: u8,  f1: Option<Ptr32<u32>>,  f2: u16, }
impl M for T476 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T477( Option<Ptr32<u32>>,  Option<Ptr32<u32>>,);
impl M for T477 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T478 {  V0( Option<Ptr32<u32>>,), #[ssbhwrite(pad_after = 3)] V1 {  v0: u8,  v1: Option<Ptr32<u32>>, }, }
impl M for T478 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 3])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u8))]
#[repr(u8)] enum T479 { V0 = 0x7F, V1 = 0, V2 = 255, }
impl M for T479 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x7Fu8, Self::V1 => 0u8, Self::V2 => 255u8, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u8>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T480 {  f0: u8,  f1: T479,  f2: u16, }
impl M for T480 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T481 {  f0: u8,  f1: RelPtr64<T479>,  f2: SsbhArray<T479>,  f3: SsbhString, }
impl M for T481 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))]
#[repr(u16)] enum T482 { V0 = 0x1234, V1 = 65535, }
impl M for T482 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0, _ => Self::V1, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x1234u16, Self::V1 => 65535u16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T483 {  f0: u8,  f1: T482,  f2: u16, }
impl M for T483 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T484 {  f0: u8,  f1: RelPtr64<T482>,  f2: SsbhArray<T482>,  f3: SsbhString, }
impl M for T484 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u32))]
#[repr(u32)] enum T485 { V0 = 0x12345678, V1 = 0, V2 = 0xFFFFFFFF, }
impl M for T485 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x12345678u32, Self::V1 => 0u32, Self::V2 => 0xFFFFFFFFu32, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u32>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T486 {  f0: u8,  f1: T485,  f2: u16, }
impl M for T486 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T487 {  f0: u8,  f1: RelPtr64<T485>,  f2: SsbhArray<T485>,  f3: SsbhString, }
impl M for T487 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u64))]
#[repr(u64)] enum T488 { V0 = 0x123456789ABCDEF0, V1 = 0, V2 = 0xFFFFFFFFFFFFFFFF, }
impl M for T488 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => 0x123456789ABCDEF0u64, Self::V1 => 0u64, Self::V2 => 0xFFFFFFFFFFFFFFFFu64, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u64>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T489 {  f0: u8,  f1: T488,  f2: u16, }
impl M for T489 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T490 {  f0: u8,  f1: RelPtr64<T488>,  f2: SsbhArray<T488>,  f3: SsbhString, }
impl M for T490 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(i8))]
#[repr(i8)] enum T491 { V0 = -1, V1 = 5, V2 = -128, }
impl M for T491 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => -1i8, Self::V1 => 5i8, Self::V2 => -128i8, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<i8>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T492 {  f0: u8,  f1: T491,  f2: u16, }
impl M for T492 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T493 {  f0: u8,  f1: RelPtr64<T491>,  f2: SsbhArray<T491>,  f3: SsbhString, }
impl M for T493 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(i16))]
#[repr(i16)] enum T494 { V0 = -2, V1 = 0x7FFF, }
impl M for T494 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0, _ => Self::V1, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => -2i16, Self::V1 => 0x7FFFi16, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<i16>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T495 {  f0: u8,  f1: T494,  f2: u16, }
impl M for T495 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T496 {  f0: u8,  f1: RelPtr64<T494>,  f2: SsbhArray<T494>,  f3: SsbhString, }
impl M for T496 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(i32))]
#[repr(i32)] enum T497 { V0 = -3, V1 = 0, V2 = 0x7FFFFFFF, }
impl M for T497 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => -3i32, Self::V1 => 0i32, Self::V2 => 0x7FFFFFFFi32, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<i32>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T498 {  f0: u8,  f1: T497,  f2: u16, }
impl M for T498 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T499 {  f0: u8,  f1: RelPtr64<T497>,  f2: SsbhArray<T497>,  f3: SsbhString, }
impl M for T499 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(i64))]
#[repr(i64)] enum T500 { V0 = -4, V1 = 1, V2 = 0x7FFFFFFFFFFFFFFF, }
impl M for T500 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.extend((match self { Self::V0 => -4i64, Self::V1 => 1i64, Self::V2 => 0x7FFFFFFFFFFFFFFFi64, }).pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<i64>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T501 {  f0: u8,  f1: T500,  f2: u16, }
impl M for T501 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T502 {  f0: u8,  f1: RelPtr64<T500>,  f2: SsbhArray<T500>,  f3: SsbhString, }
impl M for T502 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), f3: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.extend(self.f3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 5)]
struct T503 {  f0: u8,  f1: u16, }
impl M for T503 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.push(P::B(vec![0; 5])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"mg")]
struct T504( u16,);
impl M for T504 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"mg".to_vec()));  p.extend(self.0.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

enum T505 {  V0( u8,), #[ssbhwrite(pad_after = 2)] V1 {  v0: u32,  v1: u8, }, }
impl M for T505 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c),), _ => Self::V1 { v0: M::make(c), v1: M::make(c), }, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); p.push(P::B(vec![0; 2])); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(alignment = 16)]
struct T506 {  f0: u32, }
impl M for T506 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { 16 }
}

#[derive(SsbhWrite)]

struct T507 {  f0: u16,  f1: SsbhString,  f2: RelPtr64<u32>, }
impl M for T507 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 7, alignment = 8)]
struct T508( SsbhArray<SsbhString>,  u8,);
impl M for T508 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 7])); vec![P::Node(p)] }
    fn align() -> u64 { 8 }
}

#[derive(Clone, Copy)]
#[derive(SsbhWrite)]
#[ssbhwrite(repr(u16))] #[ssbhwrite(magic = b"r")] #[ssbhwrite(pad_after = 2)]
#[repr(u16)] enum T509 { V0 = 1, V1 = 2, }
impl M for T509 {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0, _ => Self::V1, } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"r".to_vec())); p.extend((match self { Self::V0 => 1u16, Self::V1 => 2u16, }).pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<u16>() as u64 }
}

#[derive(SsbhWrite)]

struct T510 {  f0: u8,  f1: Option<u32>, }
impl M for T510 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T511 {  f0: u8,  f1: T503,  f2: SsbhString, }
impl M for T511 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T512 {  f0: u8,  f1: [T503; 2],  f2: SsbhString, }
impl M for T512 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T513 {  f0: u8,  f1: Vec<T503>,  f2: SsbhString, }
impl M for T513 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T514 {  f0: u8,  f1: Option<T503>,  f2: SsbhString, }
impl M for T514 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T515 {  f0: u8,  f1: Vec<Option<T503>>,  f2: SsbhString, }
impl M for T515 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T516 {  f0: u8,  f1: RelPtr64<T503>,  f2: SsbhString, }
impl M for T516 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T517 {  f0: u8,  f1: RelPtr64<[T503; 2]>,  f2: SsbhString, }
impl M for T517 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T518 {  f0: u8,  f1: RelPtr64<Vec<T503>>,  f2: SsbhString, }
impl M for T518 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T519 {  f0: u8,  f1: Ptr64<T503>,  f2: SsbhString, }
impl M for T519 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T520 {  f0: u8,  f1: SsbhArray<T503>,  f2: SsbhString, }
impl M for T520 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T521 {  f0: u8,  f1: SsbhArray<RelPtr64<T503>>,  f2: SsbhString, }
impl M for T521 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T522 {  f0: u8,  f1: RelPtr64<Option<T503>>,  f2: SsbhString, }
impl M for T522 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T523 {  f0: u8,  f1: RelPtr64<[Option<T503>; 2]>,  f2: SsbhString, }
impl M for T523 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T524 {  f0: u8,  f1: RelPtr64<Option<Vec<T503>>>,  f2: SsbhString, }
impl M for T524 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T525 {  f0: u8,  f1: Ptr64<Option<T503>>,  f2: SsbhString, }
impl M for T525 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T526 {  f0: u8,  f1: SsbhArray<Option<T503>>,  f2: SsbhString, }
impl M for T526 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T527 {  f0: u8,  f1: SsbhArray<Vec<T503>>,  f2: SsbhString, }
impl M for T527 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T528 {  f0: u8,  f1: SsbhArray<[T503; 2]>,  f2: SsbhString, }
impl M for T528 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T529 {  f0: u8,  f1: Ptr32<Vec<T503>>,  f2: SsbhString, }
impl M for T529 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T530 {  f0: u8,  f1: RelPtr64<RelPtr64<T503>>,  f2: SsbhString, }
impl M for T530 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T531( T503,  SsbhArray<T503>,  u8,  RelPtr64<T503>,);
impl M for T531 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T532 {  V0( T503,),  V1 {  v0: SsbhArray<T503>,  v1: T503, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T503>,  T503,), }
impl M for T532 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T533 {  f0: u8,  f1: T504,  f2: SsbhString, }
impl M for T533 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T534 {  f0: u8,  f1: [T504; 2],  f2: SsbhString, }
impl M for T534 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T535 {  f0: u8,  f1: Vec<T504>,  f2: SsbhString, }
impl M for T535 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T536 {  f0: u8,  f1: Option<T504>,  f2: SsbhString, }
impl M for T536 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T537 {  f0: u8,  f1: Vec<Option<T504>>,  f2: SsbhString, }
impl M for T537 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T538 {  f0: u8,  f1: RelPtr64<T504>,  f2: SsbhString, }
impl M for T538 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T539 {  f0: u8,  f1: RelPtr64<[T504; 2]>,  f2: SsbhString, }
impl M for T539 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T540 {  f0: u8,  f1: RelPtr64<Vec<T504>>,  f2: SsbhString, }
impl M for T540 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T541 {  f0: u8,  f1: Ptr64<T504>,  f2: SsbhString, }
impl M for T541 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T542 {  f0: u8,  f1: SsbhArray<T504>,  f2: SsbhString, }
impl M for T542 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T543 {  f0: u8,  f1: SsbhArray<RelPtr64<T504>>,  f2: SsbhString, }
impl M for T543 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T544 {  f0: u8,  f1: RelPtr64<Option<T504>>,  f2: SsbhString, }
impl M for T544 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T545 {  f0: u8,  f1: RelPtr64<[Option<T504>; 2]>,  f2: SsbhString, }
impl M for T545 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T546 {  f0: u8,  f1: RelPtr64<Option<Vec<T504>>>,  f2: SsbhString, }
impl M for T546 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T547 {  f0: u8,  f1: Ptr64<Option<T504>>,  f2: SsbhString, }
impl M for T547 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T548 {  f0: u8,  f1: SsbhArray<Option<T504>>,  f2: SsbhString, }
impl M for T548 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T549 {  f0: u8,  f1: SsbhArray<Vec<T504>>,  f2: SsbhString, }
impl M for T549 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T550 {  f0: u8,  f1: SsbhArray<[T504; 2]>,  f2: SsbhString, }
impl M for T550 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T551 {  f0: u8,  f1: Ptr32<Vec<T504>>,  f2: SsbhString, }
impl M for T551 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T552 {  f0: u8,  f1: RelPtr64<RelPtr64<T504>>,  f2: SsbhString, }
impl M for T552 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T553( T504,  SsbhArray<T504>,  u8,  RelPtr64<T504>,);
impl M for T553 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T554 {  V0( T504,),  V1 {  v0: SsbhArray<T504>,  v1: T504, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T504>,  T504,), }
impl M for T554 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T555 {  f0: u8,  f1: T505,  f2: SsbhString, }
impl M for T555 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T556 {  f0: u8,  f1: [T505; 2],  f2: SsbhString, }
impl M for T556 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T557 {  f0: u8,  f1: Vec<T505>,  f2: SsbhString, }
impl M for T557 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T558 {  f0: u8,  f1: Option<T505>,  f2: SsbhString, }
impl M for T558 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T559 {  f0: u8,  f1: Vec<Option<T505>>,  f2: SsbhString, }
impl M for T559 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T560 {  f0: u8,  f1: RelPtr64<T505>,  f2: SsbhString, }
impl M for T560 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T561 {  f0: u8,  f1: RelPtr64<[T505; 2]>,  f2: SsbhString, }
impl M for T561 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T562 {  f0: u8,  f1: RelPtr64<Vec<T505>>,  f2: SsbhString, }
impl M for T562 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T563 {  f0: u8,  f1: Ptr64<T505>,  f2: SsbhString, }
impl M for T563 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T564 {  f0: u8,  f1: SsbhArray<T505>,  f2: SsbhString, }
impl M for T564 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T565 {  f0: u8,  f1: SsbhArray<RelPtr64<T505>>,  f2: SsbhString, }
impl M for T565 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T566 {  f0: u8,  f1: RelPtr64<Option<T505>>,  f2: SsbhString, }
impl M for T566 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T567 {  f0: u8,  f1: RelPtr64<[Option<T505>; 2]>,  f2: SsbhString, }
impl M for T567 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T568 {  f0: u8,  f1: RelPtr64<Option<Vec<T505>>>,  f2: SsbhString, }
impl M for T568 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T569 {  f0: u8,  f1: Ptr64<Option<T505>>,  f2: SsbhString, }
impl M for T569 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T570 {  f0: u8,  f1: SsbhArray<Option<T505>>,  f2: SsbhString, }
impl M for T570 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T571 {  f0: u8,  f1: SsbhArray<Vec<T505>>,  f2: SsbhString, }
impl M for T571 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T572 {  f0: u8,  f1: SsbhArray<[T505; 2]>,  f2: SsbhString, }
impl M for T572 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T573 {  f0: u8,  f1: Ptr32<Vec<T505>>,  f2: SsbhString, }
impl M for T573 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T574 {  f0: u8,  f1: RelPtr64<RelPtr64<T505>>,  f2: SsbhString, }
impl M for T574 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T575( T505,  SsbhArray<T505>,  u8,  RelPtr64<T505>,);
impl M for T575 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T576 {  V0( T505,),  V1 {  v0: SsbhArray<T505>,  v1: T505, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T505>,  T505,), }
impl M for T576 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T577 {  f0: u8,  f1: T506,  f2: SsbhString, }
impl M for T577 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T578 {  f0: u8,  f1: [T506; 2],  f2: SsbhString, }
impl M for T578 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T579 {  f0: u8,  f1: Vec<T506>,  f2: SsbhString, }
impl M for T579 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T580 {  f0: u8,  f1: Option<T506>,  f2: SsbhString, }
impl M for T580 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T581 {  f0: u8,  f1: Vec<Option<T506>>,  f2: SsbhString, }
impl M for T581 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T582 {  f0: u8,  f1: RelPtr64<T506>,  f2: SsbhString, }
impl M for T582 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T583 {  f0: u8,  f1: RelPtr64<[T506; 2]>,  f2: SsbhString, }
impl M for T583 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T584 {  f0: u8,  f1: RelPtr64<Vec<T506>>,  f2: SsbhString, }
impl M for T584 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T585 {  f0: u8,  f1: Ptr64<T506>,  f2: SsbhString, }
impl M for T585 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T586 {  f0: u8,  f1: SsbhArray<T506>,  f2: SsbhString, }
impl M for T586 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T587 {  f0: u8,  f1: SsbhArray<RelPtr64<T506>>,  f2: SsbhString, }
impl M for T587 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T588 {  f0: u8,  f1: RelPtr64<Option<T506>>,  f2: SsbhString, }
impl M for T588 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T589 {  f0: u8,  f1: RelPtr64<[Option<T506>; 2]>,  f2: SsbhString, }
impl M for T589 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T590 {  f0: u8,  f1: RelPtr64<Option<Vec<T506>>>,  f2: SsbhString, }
impl M for T590 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T591 {  f0: u8,  f1: Ptr64<Option<T506>>,  f2: SsbhString, }
impl M for T591 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T592 {  f0: u8,  f1: SsbhArray<Option<T506>>,  f2: SsbhString, }
impl M for T592 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T593 {  f0: u8,  f1: SsbhArray<Vec<T506>>,  f2: SsbhString, }
impl M for T593 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T594 {  f0: u8,  f1: SsbhArray<[T506; 2]>,  f2: SsbhString, }
impl M for T594 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T595 {  f0: u8,  f1: Ptr32<Vec<T506>>,  f2: SsbhString, }
impl M for T595 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T596 {  f0: u8,  f1: RelPtr64<RelPtr64<T506>>,  f2: SsbhString, }
impl M for T596 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T597( T506,  SsbhArray<T506>,  u8,  RelPtr64<T506>,);
impl M for T597 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T598 {  V0( T506,),  V1 {  v0: SsbhArray<T506>,  v1: T506, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T506>,  T506,), }
impl M for T598 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T599 {  f0: u8,  f1: T507,  f2: SsbhString, }
impl M for T599 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T600 {  f0: u8,  f1: [T507; 2],  f2: SsbhString, }
impl M for T600 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T601 {  f0: u8,  f1: Vec<T507>,  f2: SsbhString, }
impl M for T601 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T602 {  f0: u8,  f1: Option<T507>,  f2: SsbhString, }
impl M for T602 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T603 {  f0: u8,  f1: Vec<Option<T507>>,  f2: SsbhString, }
impl M for T603 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T604 {  f0: u8,  f1: RelPtr64<T507>,  f2: SsbhString, }
impl M for T604 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T605 {  f0: u8,  f1: RelPtr64<[T507; 2]>,  f2: SsbhString, }
impl M for T605 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T606 {  f0: u8,  f1: RelPtr64<Vec<T507>>,  f2: SsbhString, }
impl M for T606 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T607 {  f0: u8,  f1: Ptr64<T507>,  f2: SsbhString, }
impl M for T607 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T608 {  f0: u8,  f1: SsbhArray<T507>,  f2: SsbhString, }
impl M for T608 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T609 {  f0: u8,  f1: SsbhArray<RelPtr64<T507>>,  f2: SsbhString, }
impl M for T609 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T610 {  f0: u8,  f1: RelPtr64<Option<T507>>,  f2: SsbhString, }
impl M for T610 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T611 {  f0: u8,  f1: RelPtr64<[Option<T507>; 2]>,  f2: SsbhString, }
impl M for T611 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T612 {  f0: u8,  f1: RelPtr64<Option<Vec<T507>>>,  f2: SsbhString, }
impl M for T612 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T613 {  f0: u8,  f1: Ptr64<Option<T507>>,  f2: SsbhString, }
impl M for T613 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T614 {  f0: u8,  f1: SsbhArray<Option<T507>>,  f2: SsbhString, }
impl M for T614 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T615 {  f0: u8,  f1: SsbhArray<Vec<T507>>,  f2: SsbhString, }
impl M for T615 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T616 {  f0: u8,  f1: SsbhArray<[T507; 2]>,  f2: SsbhString, }
impl M for T616 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T617 {  f0: u8,  f1: Ptr32<Vec<T507>>,  f2: SsbhString, }
impl M for T617 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T618 {  f0: u8,  f1: RelPtr64<RelPtr64<T507>>,  f2: SsbhString, }
impl M for T618 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T619( T507,  SsbhArray<T507>,  u8,  RelPtr64<T507>,);
impl M for T619 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T620 {  V0( T507,),  V1 {  v0: SsbhArray<T507>,  v1: T507, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T507>,  T507,), }
impl M for T620 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T621 {  f0: u8,  f1: T508,  f2: SsbhString, }
impl M for T621 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T622 {  f0: u8,  f1: [T508; 2],  f2: SsbhString, }
impl M for T622 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T623 {  f0: u8,  f1: Vec<T508>,  f2: SsbhString, }
impl M for T623 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T624 {  f0: u8,  f1: Option<T508>,  f2: SsbhString, }
impl M for T624 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T625 {  f0: u8,  f1: Vec<Option<T508>>,  f2: SsbhString, }
impl M for T625 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T626 {  f0: u8,  f1: RelPtr64<T508>,  f2: SsbhString, }
impl M for T626 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T627 {  f0: u8,  f1: RelPtr64<[T508; 2]>,  f2: SsbhString, }
impl M for T627 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T628 {  f0: u8,  f1: RelPtr64<Vec<T508>>,  f2: SsbhString, }
impl M for T628 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T629 {  f0: u8,  f1: Ptr64<T508>,  f2: SsbhString, }
impl M for T629 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T630 {  f0: u8,  f1: SsbhArray<T508>,  f2: SsbhString, }
impl M for T630 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T631 {  f0: u8,  f1: SsbhArray<RelPtr64<T508>>,  f2: SsbhString, }
impl M for T631 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T632 {  f0: u8,  f1: RelPtr64<Option<T508>>,  f2: SsbhString, }
impl M for T632 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T633 {  f0: u8,  f1: RelPtr64<[Option<T508>; 2]>,  f2: SsbhString, }
impl M for T633 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T634 {  f0: u8,  f1: RelPtr64<Option<Vec<T508>>>,  f2: SsbhString, }
impl M for T634 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T635 {  f0: u8,  f1: Ptr64<Option<T508>>,  f2: SsbhString, }
impl M for T635 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T636 {  f0: u8,  f1: SsbhArray<Option<T508>>,  f2: SsbhString, }
impl M for T636 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T637 {  f0: u8,  f1: SsbhArray<Vec<T508>>,  f2: SsbhString, }
impl M for T637 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T638 {  f0: u8,  f1: SsbhArray<[T508; 2]>,  f2: SsbhString, }
impl M for T638 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T639 {  f0: u8,  f1: Ptr32<Vec<T508>>,  f2: SsbhString, }
impl M for T639 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T640 {  f0: u8,  f1: RelPtr64<RelPtr64<T508>>,  f2: SsbhString, }
impl M for T640 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T641( T508,  SsbhArray<T508>,  u8,  RelPtr64<T508>,);
impl M for T641 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T642 {  V0( T508,),  V1 {  v0: SsbhArray<T508>,  v1: T508, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T508>,  T508,), }
impl M for T642 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T643 {  f0: u8,  f1: T509,  f2: SsbhString, }
impl M for T643 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T644 {  f0: u8,  f1: [T509; 2],  f2: SsbhString, }
impl M for T644 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T645 {  f0: u8,  f1: Vec<T509>,  f2: SsbhString, }
impl M for T645 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T646 {  f0: u8,  f1: Option<T509>,  f2: SsbhString, }
impl M for T646 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T647 {  f0: u8,  f1: Vec<Option<T509>>,  f2: SsbhString, }
impl M for T647 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T648 {  f0: u8,  f1: RelPtr64<T509>,  f2: SsbhString, }
impl M for T648 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T649 {  f0: u8,  f1: RelPtr64<[T509; 2]>,  f2: SsbhString, }
impl M for T649 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T650 {  f0: u8,  f1: RelPtr64<Vec<T509>>,  f2: SsbhString, }
impl M for T650 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T651 {  f0: u8,  f1: Ptr64<T509>,  f2: SsbhString, }
impl M for T651 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T652 {  f0: u8,  f1: SsbhArray<T509>,  f2: SsbhString, }
impl M for T652 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T653 {  f0: u8,  f1: SsbhArray<RelPtr64<T509>>,  f2: SsbhString, }
impl M for T653 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T654 {  f0: u8,  f1: RelPtr64<Option<T509>>,  f2: SsbhString, }
impl M for T654 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T655 {  f0: u8,  f1: RelPtr64<[Option<T509>; 2]>,  f2: SsbhString, }
impl M for T655 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T656 {  f0: u8,  f1: RelPtr64<Option<Vec<T509>>>,  f2: SsbhString, }
impl M for T656 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T657 {  f0: u8,  f1: Ptr64<Option<T509>>,  f2: SsbhString, }
impl M for T657 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T658 {  f0: u8,  f1: SsbhArray<Option<T509>>,  f2: SsbhString, }
impl M for T658 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T659 {  f0: u8,  f1: SsbhArray<Vec<T509>>,  f2: SsbhString, }
impl M for T659 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T660 {  f0: u8,  f1: SsbhArray<[T509; 2]>,  f2: SsbhString, }
impl M for T660 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T661 {  f0: u8,  f1: Ptr32<Vec<T509>>,  f2: SsbhString, }
impl M for T661 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T662 {  f0: u8,  f1: RelPtr64<RelPtr64<T509>>,  f2: SsbhString, }
impl M for T662 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T663( T509,  SsbhArray<T509>,  u8,  RelPtr64<T509>,);
impl M for T663 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T664 {  V0( T509,),  V1 {  v0: SsbhArray<T509>,  v1: T509, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T509>,  T509,), }
impl M for T664 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T665 {  f0: u8,  f1: T510,  f2: SsbhString, }
impl M for T665 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T666 {  f0: u8,  f1: [T510; 2],  f2: SsbhString, }
impl M for T666 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T667 {  f0: u8,  f1: Vec<T510>,  f2: SsbhString, }
impl M for T667 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T668 {  f0: u8,  f1: Option<T510>,  f2: SsbhString, }
impl M for T668 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T669 {  f0: u8,  f1: Vec<Option<T510>>,  f2: SsbhString, }
impl M for T669 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T670 {  f0: u8,  f1: RelPtr64<T510>,  f2: SsbhString, }
impl M for T670 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T671 {  f0: u8,  f1: RelPtr64<[T510; 2]>,  f2: SsbhString, }
impl M for T671 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T672 {  f0: u8,  f1: RelPtr64<Vec<T510>>,  f2: SsbhString, }
impl M for T672 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T673 {  f0: u8,  f1: Ptr64<T510>,  f2: SsbhString, }
impl M for T673 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T674 {  f0: u8,  f1: SsbhArray<T510>,  f2: SsbhString, }
impl M for T674 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T675 {  f0: u8,  f1: SsbhArray<RelPtr64<T510>>,  f2: SsbhString, }
impl M for T675 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T676 {  f0: u8,  f1: RelPtr64<Option<T510>>,  f2: SsbhString, }
impl M for T676 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T677 {  f0: u8,  f1: RelPtr64<[Option<T510>; 2]>,  f2: SsbhString, }
impl M for T677 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T678 {  f0: u8,  f1: RelPtr64<Option<Vec<T510>>>,  f2: SsbhString, }
impl M for T678 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T679 {  f0: u8,  f1: Ptr64<Option<T510>>,  f2: SsbhString, }
impl M for T679 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T680 {  f0: u8,  f1: SsbhArray<Option<T510>>,  f2: SsbhString, }
impl M for T680 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T681 {  f0: u8,  f1: SsbhArray<Vec<T510>>,  f2: SsbhString, }
impl M for T681 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T682 {  f0: u8,  f1: SsbhArray<[T510; 2]>,  f2: SsbhString, }
impl M for T682 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T683 {  f0: u8,  f1: Ptr32<Vec<T510>>,  f2: SsbhString, }
impl M for T683 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T684 {  f0: u8,  f1: RelPtr64<RelPtr64<T510>>,  f2: SsbhString, }
impl M for T684 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"qq")]
struct T685( T510,  SsbhArray<T510>,  u8,  RelPtr64<T510>,);
impl M for T685 {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c), M::make(c), M::make(c),) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"qq".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.extend(self.2.pieces()); p.extend(self.3.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"e")]
enum T686 {  V0( T510,),  V1 {  v0: SsbhArray<T510>,  v1: T510, },  V2(#[ssbhwrite(pad_after = 3)] u8,  RelPtr64<T510>,  T510,), }
impl M for T686 {
    fn make(c: &mut Ctx) -> Self { match c.choose(3) { 0 => Self::V0(M::make(c),), 1 => Self::V1 { v0: M::make(c), v1: M::make(c), }, _ => Self::V2(M::make(c), M::make(c), M::make(c),), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"e".to_vec())); match self { Self::V0(v0) => {  p.extend(v0.pieces()); } Self::V1 { v0, v1 } => {  p.extend(v0.pieces()); p.extend(v1.pieces()); } Self::V2(v0, v1, v2) => {  p.extend(v0.pieces()); p.push(P::B(vec![0; 3])); p.extend(v1.pieces()); p.extend(v2.pieces()); } } vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(align_after = 4)]
struct T687 {  f0: u8, }
impl M for T687 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.push(P::End(4)); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T688 {  f0: u8,  f1: T687,  f2: u16, }
impl M for T688 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T689 {  f0: u8,  f1: [T687; 3],  f2: u16, }
impl M for T689 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T690 {  f0: u8,  f1: Vec<T687>,  f2: u16, }
impl M for T690 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T691 {  f0: u8,  f1: Option<T687>,  f2: u16, }
impl M for T691 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
struct T692<T: SsbhWrite> { x: T, y: u8 }
impl<T: M + SsbhWrite> M for T692<T> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T693 {  f0: T692<u8>,  f1: u8,  f2: SsbhArray<T692<u8>>, }
impl M for T693 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T694 {  f0: T692<SsbhString>,  f1: u8,  f2: SsbhArray<T692<SsbhString>>, }
impl M for T694 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T695 {  f0: T692<Option<u16>>,  f1: u8,  f2: SsbhArray<T692<Option<u16>>>, }
impl M for T695 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T696 {  f0: T692<[u8; 2]>,  f1: u8,  f2: SsbhArray<T692<[u8; 2]>>, }
impl M for T696 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T697 {  f0: T692<T692<u16>>,  f1: u8,  f2: SsbhArray<T692<T692<u16>>>, }
impl M for T697 {
    fn make(c: &mut Ctx) -> Self { Self { f0: M::make(c), f1: M::make(c), f2: M::make(c), } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.f0.pieces()); p.extend(self.f1.pieces()); p.extend(self.f2.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 2)]
struct T698<'a> { x: u8, y: &'a [u16], z: SsbhString }
impl M for T698<'static> {
    fn make(c: &mut Ctx) -> Self { Self { x: M::make(c), y: M::make(c), z: M::make(c) } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.extend(self.z.pieces()); p.push(P::B(vec![0; 2])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]

struct T699<const N: usize>([u16; N], #[ssbhwrite(pad_after = 1)] u8);
impl<const N: usize> M for T699<N> {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c)) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(magic = b"w")]
struct T700<A, B>(A, RelPtr64<B>) where A: SsbhWrite, B: SsbhWrite;
impl<A: M + SsbhWrite, B: M + SsbhWrite> M for T700<A, B> {
    fn make(c: &mut Ctx) -> Self { Self(M::make(c), M::make(c)) }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new(); p.push(P::B(b"w".to_vec()));  p.extend(self.0.pieces()); p.extend(self.1.pieces()); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

#[derive(SsbhWrite)]
#[ssbhwrite(pad_after = 1)]
enum T701<A: SsbhWrite> { V0(A), V1 { x: u8, y: A } }
impl<A: M + SsbhWrite> M for T701<A> {
    fn make(c: &mut Ctx) -> Self { match c.choose(2) { 0 => Self::V0(M::make(c)), _ => Self::V1 { x: M::make(c), y: M::make(c) } } }
    fn pieces(&self) -> Vec<P> { let mut p: Vec<P> = Vec::new();  match self { Self::V0(a) => p.extend(a.pieces()), Self::V1 { x, y } => { p.extend(x.pieces()); p.extend(y.pieces()); } } p.push(P::B(vec![0; 1])); vec![P::Node(p)] }
    fn align() -> u64 { std::mem::align_of::<Self>() as u64 }
}

pub fn scenarios(t: bool) -> Vec<Scenario> {
    let k = if t { 6 } else { 4 };
    vec![
        check::<T1>("T1: named -", k, <T1 as M>::align()),
        check::<T2>("T2: named magic=abc", k, <T2 as M>::align()),
        check::<T3>("T3: named alignment=16", k, <T3 as M>::align()),
        check::<T4>("T4: named alignment=16,magic=abc", k, <T4 as M>::align()),
        check::<T5>("T5: named align_after=4", k, <T5 as M>::align()),
        check::<T6>("T6: named align_after=4,magic=abc", k, <T6 as M>::align()),
        check::<T7>("T7: named align_after=4,alignment=16", k, <T7 as M>::align()),
        check::<T8>("T8: named align_after=4,alignment=16,magic=abc", k, <T8 as M>::align()),
        check::<T9>("T9: named pad_after=3", k, <T9 as M>::align()),
        check::<T10>("T10: named pad_after=3,magic=abc", k, <T10 as M>::align()),
        check::<T11>("T11: named pad_after=3,alignment=16", k, <T11 as M>::align()),
        check::<T12>("T12: named pad_after=3,alignment=16,magic=abc", k, <T12 as M>::align()),
        check::<T13>("T13: named pad_after=3,align_after=4", k, <T13 as M>::align()),
        check::<T14>("T14: named pad_after=3,align_after=4,magic=abc", k, <T14 as M>::align()),
        check::<T15>("T15: named pad_after=3,align_after=4,alignment=16", k, <T15 as M>::align()),
        check::<T16>("T16: named pad_after=3,align_after=4,alignment=16,magic=abc", k, <T16 as M>::align()),
        check::<T17>("T17: named pad_after=0", k, <T17 as M>::align()),
        check::<T18>("T18: named pad_after=1", k, <T18 as M>::align()),
        check::<T19>("T19: named pad_after=16", k, <T19 as M>::align()),
        check::<T20>("T20: named align_after=0", k, <T20 as M>::align()),
        check::<T21>("T21: named align_after=1", k, <T21 as M>::align()),
        check::<T22>("T22: named align_after=3", k, <T22 as M>::align()),
        check::<T23>("T23: named align_after=8", k, <T23 as M>::align()),
        check::<T24>("T24: named align_after=16", k, <T24 as M>::align()),
        check::<T25>("T25: named alignment=1", k, <T25 as M>::align()),
        check::<T26>("T26: named alignment=7", k, <T26 as M>::align()),
        check::<T27>("T27: named magic=x", k, <T27 as M>::align()),
        check::<T28>("T28: named magic=abcdefgh", k, <T28 as M>::align()),
        check::<T29>("T29: tuple -", k, <T29 as M>::align()),
        check::<T30>("T30: tuple magic=abc", k, <T30 as M>::align()),
        check::<T31>("T31: tuple alignment=16", k, <T31 as M>::align()),
        check::<T32>("T32: tuple alignment=16,magic=abc", k, <T32 as M>::align()),
        check::<T33>("T33: tuple align_after=4", k, <T33 as M>::align()),
        check::<T34>("T34: tuple align_after=4,magic=abc", k, <T34 as M>::align()),
        check::<T35>("T35: tuple align_after=4,alignment=16", k, <T35 as M>::align()),
        check::<T36>("T36: tuple align_after=4,alignment=16,magic=abc", k, <T36 as M>::align()),
        check::<T37>("T37: tuple pad_after=3", k, <T37 as M>::align()),
        check::<T38>("T38: tuple pad_after=3,magic=abc", k, <T38 as M>::align()),
        check::<T39>("T39: tuple pad_after=3,alignment=16", k, <T39 as M>::align()),
        check::<T40>("T40: tuple pad_after=3,alignment=16,magic=abc", k, <T40 as M>::align()),
        check::<T41>("T41: tuple pad_after=3,align_after=4", k, <T41 as M>::align()),
        check::<T42>("T42: tuple pad_after=3,align_after=4,magic=abc", k, <T42 as M>::align()),
        check::<T43>("T43: tuple pad_after=3,align_after=4,alignment=16", k, <T43 as M>::align()),
        check::<T44>("T44: tuple pad_after=3,align_after=4,alignment=16,magic=abc", k, <T44 as M>::align()),
        check::<T45>("T45: tuple pad_after=0", k, <T45 as M>::align()),
        check::<T46>("T46: tuple pad_after=1", k, <T46 as M>::align()),
        check::<T47>("T47: tuple pad_after=16", k, <T47 as M>::align()),
        check::<T48>("T48: tuple align_after=0", k, <T48 as M>::align()),
        check::<T49>("T49: tuple align_after=1", k, <T49 as M>::align()),
        check::<T50>("T50: tuple align_after=3", k, <T50 as M>::align()),
        check::<T51>("T51: tuple align_after=8", k, <T51 as M>::align()),
        check::<T52>("T52: tuple align_after=16", k, <T52 as M>::align()),
        check::<T53>("T53: tuple alignment=1", k, <T53 as M>::align()),
        check::<T54>("T54: tuple alignment=7", k, <T54 as M>::align()),
        check::<T55>("T55: tuple magic=x", k, <T55 as M>::align()),
        check::<T56>("T56: tuple magic=abcdefgh", k, <T56 as M>::align()),
        check::<T57>("T57: enum -", k, <T57 as M>::align()),
        check::<T58>("T58: enum magic=abc", k, <T58 as M>::align()),
        check::<T59>("T59: enum alignment=16", k, <T59 as M>::align()),
        check::<T60>("T60: enum alignment=16,magic=abc", k, <T60 as M>::align()),
        check::<T61>("T61: enum align_after=4", k, <T61 as M>::align()),
        check::<T62>("T62: enum align_after=4,magic=abc", k, <T62 as M>::align()),
        check::<T63>("T63: enum align_after=4,alignment=16", k, <T63 as M>::align()),
        check::<T64>("T64: enum align_after=4,alignment=16,magic=abc", k, <T64 as M>::align()),
        check::<T65>("T65: enum pad_after=3", k, <T65 as M>::align()),
        check::<T66>("T66: enum pad_after=3,magic=abc", k, <T66 as M>::align()),
        check::<T67>("T67: enum pad_after=3,alignment=16", k, <T67 as M>::align()),
        check::<T68>("T68: enum pad_after=3,alignment=16,magic=abc", k, <T68 as M>::align()),
        check::<T69>("T69: enum pad_after=3,align_after=4", k, <T69 as M>::align()),
        check::<T70>("T70: enum pad_after=3,align_after=4,magic=abc", k, <T70 as M>::align()),
        check::<T71>("T71: enum pad_after=3,align_after=4,alignment=16", k, <T71 as M>::align()),
        check::<T72>("T72: enum pad_after=3,align_after=4,alignment=16,magic=abc", k, <T72 as M>::align()),
        check::<T73>("T73: enum pad_after=0", k, <T73 as M>::align()),
        check::<T74>("T74: enum pad_after=1", k, <T74 as M>::align()),
        check::<T75>("T75: enum pad_after=16", k, <T75 as M>::align()),
        check::<T76>("T76: enum align_after=0", k, <T76 as M>::align()),
        check::<T77>("T77: enum align_after=1", k, <T77 as M>::align()),
        check::<T78>("T78: enum align_after=3", k, <T78 as M>::align()),
        check::<T79>("T79: enum align_after=8", k, <T79 as M>::align()),
        check::<T80>("T80: enum align_after=16", k, <T80 as M>::align()),
        check::<T81>("T81: enum alignment=1", k, <T81 as M>::align()),
        check::<T82>("T82: enum alignment=7", k, <T82 as M>::align()),
        check::<T83>("T83: enum magic=x", k, <T83 as M>::align()),
        check::<T84>("T84: enum magic=abcdefgh", k, <T84 as M>::align()),
        check::<T85>("T85: repr -", k, <T85 as M>::align()),
        check::<T86>("T86: repr magic=abc", k, <T86 as M>::align()),
        check::<T87>("T87: repr alignment=16", k, <T87 as M>::align()),
        check::<T88>("T88: repr alignment=16,magic=abc", k, <T88 as M>::align()),
        check::<T89>("T89: repr align_after=4", k, <T89 as M>::align()),
        check::<T90>("T90: repr align_after=4,magic=abc", k, <T90 as M>::align()),
        check::<T91>("T91: repr align_after=4,alignment=16", k, <T91 as M>::align()),
        check::<T92>("T92: repr align_after=4,alignment=16,magic=abc", k, <T92 as M>::align()),
        check::<T93>("T93: repr pad_after=3", k, <T93 as M>::align()),
        check::<T94>("T94: repr pad_after=3,magic=abc", k, <T94 as M>::align()),
        check::<T95>("T95: repr pad_after=3,alignment=16", k, <T95 as M>::align()),
        check::<T96>("T96: repr pad_after=3,alignment=16,magic=abc", k, <T96 as M>::align()),
        check::<T97>("T97: repr pad_after=3,align_after=4", k, <T97 as M>::align()),
        check::<T98>("T98: repr pad_after=3,align_after=4,magic=abc", k, <T98 as M>::align()),
        check::<T99>("T99: repr pad_after=3,align_after=4,alignment=16", k, <T99 as M>::align()),
        check::<T100>("T100: repr pad_after=3,align_after=4,alignment=16,magic=abc", k, <T100 as M>::align()),
        check::<T101>("T101: repr pad_after=0", k, <T101 as M>::align()),
        check::<T102>("T102: repr pad_after=1", k, <T102 as M>::align()),
        check::<T103>("T103: repr pad_after=16", k, <T103 as M>::align()),
        check::<T104>("T104: repr align_after=0", k, <T104 as M>::align()),
        check::<T105>("T105: repr align_after=1", k, <T105 as M>::align()),
        check::<T106>("T106: repr align_after=3", k, <T106 as M>::align()),
        check::<T107>("T107: repr align_after=8", k, <T107 as M>::align()),
        check::<T108>("T108: repr align_after=16", k, <T108 as M>::align()),
        check::<T109>("T109: repr alignment=1", k, <T109 as M>::align()),
        check::<T110>("T110: repr alignment=7", k, <T110 as M>::align()),
        check::<T111>("T111: repr magic=x", k, <T111 as M>::align()),
        check::<T112>("T112: repr magic=abcdefgh", k, <T112 as M>::align()),
        check::<T113<u16>>("T113: generic -", k, <T113<u16> as M>::align()),
        check::<T114<u16>>("T114: generic magic=abc", k, <T114<u16> as M>::align()),
        check::<T115<u16>>("T115: generic alignment=16", k, <T115<u16> as M>::align()),
        check::<T116<u16>>("T116: generic alignment=16,magic=abc", k, <T116<u16> as M>::align()),
        check::<T117<u16>>("T117: generic align_after=4", k, <T117<u16> as M>::align()),
        check::<T118<u16>>("T118: generic align_after=4,magic=abc", k, <T118<u16> as M>::align()),
        check::<T119<u16>>("T119: generic align_after=4,alignment=16", k, <T119<u16> as M>::align()),
        check::<T120<u16>>("T120: generic align_after=4,alignment=16,magic=abc", k, <T120<u16> as M>::align()),
        check::<T121<u16>>("T121: generic pad_after=3", k, <T121<u16> as M>::align()),
        check::<T122<u16>>("T122: generic pad_after=3,magic=abc", k, <T122<u16> as M>::align()),
        check::<T123<u16>>("T123: generic pad_after=3,alignment=16", k, <T123<u16> as M>::align()),
        check::<T124<u16>>("T124: generic pad_after=3,alignment=16,magic=abc", k, <T124<u16> as M>::align()),
        check::<T125<u16>>("T125: generic pad_after=3,align_after=4", k, <T125<u16> as M>::align()),
        check::<T126<u16>>("T126: generic pad_after=3,align_after=4,magic=abc", k, <T126<u16> as M>::align()),
        check::<T127<u16>>("T127: generic pad_after=3,align_after=4,alignment=16", k, <T127<u16> as M>::align()),
        check::<T128<u16>>("T128: generic pad_after=3,align_after=4,alignment=16,magic=abc", k, <T128<u16> as M>::align()),
        check::<T129<u16>>("T129: generic pad_after=0", k, <T129<u16> as M>::align()),
        check::<T130<u16>>("T130: generic pad_after=1", k, <T130<u16> as M>::align()),
        check::<T131<u16>>("T131: generic pad_after=16", k, <T131<u16> as M>::align()),
        check::<T132<u16>>("T132: generic align_after=0", k, <T132<u16> as M>::align()),
        check::<T133<u16>>("T133: generic align_after=1", k, <T133<u16> as M>::align()),
        check::<T134<u16>>("T134: generic align_after=3", k, <T134<u16> as M>::align()),
        check::<T135<u16>>("T135: generic align_after=8", k, <T135<u16> as M>::align()),
        check::<T136<u16>>("T136: generic align_after=16", k, <T136<u16> as M>::align()),
        check::<T137<u16>>("T137: generic alignment=1", k, <T137<u16> as M>::align()),
        check::<T138<u16>>("T138: generic alignment=7", k, <T138<u16> as M>::align()),
        check::<T139<u16>>("T139: generic magic=x", k, <T139<u16> as M>::align()),
        check::<T140<u16>>("T140: generic magic=abcdefgh", k, <T140<u16> as M>::align()),
        check::<T141>("T141: pointers -", k, <T141 as M>::align()),
        check::<T142>("T142: pointers magic=abc", k, <T142 as M>::align()),
        check::<T143>("T143: pointers alignment=16", k, <T143 as M>::align()),
        check::<T144>("T144: pointers alignment=16,magic=abc", k, <T144 as M>::align()),
        check::<T145>("T145: pointers align_after=4", k, <T145 as M>::align()),
        check::<T146>("T146: pointers align_after=4,magic=abc", k, <T146 as M>::align()),
        check::<T147>("T147: pointers align_after=4,alignment=16", k, <T147 as M>::align()),
        check::<T148>("T148: pointers align_after=4,alignment=16,magic=abc", k, <T148 as M>::align()),
        check::<T149>("T149: pointers pad_after=3", k, <T149 as M>::align()),
        check::<T150>("T150: pointers pad_after=3,magic=abc", k, <T150 as M>::align()),
        check::<T151>("T151: pointers pad_after=3,alignment=16", k, <T151 as M>::align()),
        check::<T152>("T152: pointers pad_after=3,alignment=16,magic=abc", k, <T152 as M>::align()),
        check::<T153>("T153: pointers pad_after=3,align_after=4", k, <T153 as M>::align()),
        check::<T154>("T154: pointers pad_after=3,align_after=4,magic=abc", k, <T154 as M>::align()),
        check::<T155>("T155: pointers pad_after=3,align_after=4,alignment=16", k, <T155 as M>::align()),
        check::<T156>("T156: pointers pad_after=3,align_after=4,alignment=16,magic=abc", k, <T156 as M>::align()),
        check::<T157>("T157: pointers pad_after=0", k, <T157 as M>::align()),
        check::<T158>("T158: pointers pad_after=1", k, <T158 as M>::align()),
        check::<T159>("T159: pointers pad_after=16", k, <T159 as M>::align()),
        check::<T160>("T160: pointers align_after=0", k, <T160 as M>::align()),
        check::<T161>("T161: pointers align_after=1", k, <T161 as M>::align()),
        check::<T162>("T162: pointers align_after=3", k, <T162 as M>::align()),
        check::<T163>("T163: pointers align_after=8", k, <T163 as M>::align()),
        check::<T164>("T164: pointers align_after=16", k, <T164 as M>::align()),
        check::<T165>("T165: pointers alignment=1", k, <T165 as M>::align()),
        check::<T166>("T166: pointers alignment=7", k, <T166 as M>::align()),
        check::<T167>("T167: pointers magic=x", k, <T167 as M>::align()),
        check::<T168>("T168: pointers magic=abcdefgh", k, <T168 as M>::align()),
        check::<T169>("T169: tuple pointers -", k, <T169 as M>::align()),
        check::<T170>("T170: tuple pointers magic=abc", k, <T170 as M>::align()),
        check::<T171>("T171: tuple pointers alignment=16", k, <T171 as M>::align()),
        check::<T172>("T172: tuple pointers alignment=16,magic=abc", k, <T172 as M>::align()),
        check::<T173>("T173: tuple pointers align_after=4", k, <T173 as M>::align()),
        check::<T174>("T174: tuple pointers align_after=4,magic=abc", k, <T174 as M>::align()),
        check::<T175>("T175: tuple pointers align_after=4,alignment=16", k, <T175 as M>::align()),
        check::<T176>("T176: tuple pointers align_after=4,alignment=16,magic=abc", k, <T176 as M>::align()),
        check::<T177>("T177: tuple pointers pad_after=3", k, <T177 as M>::align()),
        check::<T178>("T178: tuple pointers pad_after=3,magic=abc", k, <T178 as M>::align()),
        check::<T179>("T179: tuple pointers pad_after=3,alignment=16", k, <T179 as M>::align()),
        check::<T180>("T180: tuple pointers pad_after=3,alignment=16,magic=abc", k, <T180 as M>::align()),
        check::<T181>("T181: tuple pointers pad_after=3,align_after=4", k, <T181 as M>::align()),
        check::<T182>("T182: tuple pointers pad_after=3,align_after=4,magic=abc", k, <T182 as M>::align()),
        check::<T183>("T183: tuple pointers pad_after=3,align_after=4,alignment=16", k, <T183 as M>::align()),
        check::<T184>("T184: tuple pointers pad_after=3,align_after=4,alignment=16,magic=abc", k, <T184 as M>::align()),
        check::<T185>("T185: tuple pointers pad_after=0", k, <T185 as M>::align()),
        check::<T186>("T186: tuple pointers pad_after=1", k, <T186 as M>::align()),
        check::<T187>("T187: tuple pointers pad_after=16", k, <T187 as M>::align()),
        check::<T188>("T188: tuple pointers align_after=0", k, <T188 as M>::align()),
        check::<T189>("T189: tuple pointers align_after=1", k, <T189 as M>::align()),
        check::<T190>("T190: tuple pointers align_after=3", k, <T190 as M>::align()),
        check::<T191>("T191: tuple pointers align_after=8", k, <T191 as M>::align()),
        check::<T192>("T192: tuple pointers align_after=16", k, <T192 as M>::align()),
        check::<T193>("T193: tuple pointers alignment=1", k, <T193 as M>::align()),
        check::<T194>("T194: tuple pointers alignment=7", k, <T194 as M>::align()),
        check::<T195>("T195: tuple pointers magic=x", k, <T195 as M>::align()),
        check::<T196>("T196: tuple pointers magic=abcdefgh", k, <T196 as M>::align()),
        check::<T197>("T197: named fields - / pad_after=2", k, <T197 as M>::align()),
        check::<T198>("T198: tuple fields - / pad_after=2", k, <T198 as M>::align()),
        check::<T199>("T199: enum fields - / pad_after=2", k, <T199 as M>::align()),
        check::<T200>("T200: named fields - / align_after=8", k, <T200 as M>::align()),
        check::<T201>("T201: tuple fields - / align_after=8", k, <T201 as M>::align()),
        check::<T202>("T202: enum fields - / align_after=8", k, <T202 as M>::align()),
        check::<T203>("T203: named fields align_after=4 / -", k, <T203 as M>::align()),
        check::<T204>("T204: tuple fields align_after=4 / -", k, <T204 as M>::align()),
        check::<T205>("T205: enum fields align_after=4 / -", k, <T205 as M>::align()),
        check::<T206>("T206: named fields align_after=4 / pad_after=2", k, <T206 as M>::align()),
        check::<T207>("T207: tuple fields align_after=4 / pad_after=2", k, <T207 as M>::align()),
        check::<T208>("T208: enum fields align_after=4 / pad_after=2", k, <T208 as M>::align()),
        check::<T209>("T209: named fields align_after=4 / align_after=8", k, <T209 as M>::align()),
        check::<T210>("T210: tuple fields align_after=4 / align_after=8", k, <T210 as M>::align()),
        check::<T211>("T211: enum fields align_after=4 / align_after=8", k, <T211 as M>::align()),
        check::<T212>("T212: named fields pad_after=1 / -", k, <T212 as M>::align()),
        check::<T213>("T213: tuple fields pad_after=1 / -", k, <T213 as M>::align()),
        check::<T214>("T214: enum fields pad_after=1 / -", k, <T214 as M>::align()),
        check::<T215>("T215: named fields pad_after=1 / pad_after=2", k, <T215 as M>::align()),
        check::<T216>("T216: tuple fields pad_after=1 / pad_after=2", k, <T216 as M>::align()),
        check::<T217>("T217: enum fields pad_after=1 / pad_after=2", k, <T217 as M>::align()),
        check::<T218>("T218: named fields pad_after=1 / align_after=8", k, <T218 as M>::align()),
        check::<T219>("T219: tuple fields pad_after=1 / align_after=8", k, <T219 as M>::align()),
        check::<T220>("T220: enum fields pad_after=1 / align_after=8", k, <T220 as M>::align()),
        check::<T221>("T221: named fields pad_after=1,align_after=4 / -", k, <T221 as M>::align()),
        check::<T222>("T222: tuple fields pad_after=1,align_after=4 / -", k, <T222 as M>::align()),
        check::<T223>("T223: enum fields pad_after=1,align_after=4 / -", k, <T223 as M>::align()),
        check::<T224>("T224: named fields pad_after=1,align_after=4 / pad_after=2", k, <T224 as M>::align()),
        check::<T225>("T225: tuple fields pad_after=1,align_after=4 / pad_after=2", k, <T225 as M>::align()),
        check::<T226>("T226: enum fields pad_after=1,align_after=4 / pad_after=2", k, <T226 as M>::align()),
        check::<T227>("T227: named fields pad_after=1,align_after=4 / align_after=8", k, <T227 as M>::align()),
        check::<T228>("T228: tuple fields pad_after=1,align_after=4 / align_after=8", k, <T228 as M>::align()),
        check::<T229>("T229: enum fields pad_after=1,align_after=4 / align_after=8", k, <T229 as M>::align()),
        check::<T230>("T230: named fields pad_after=3 / -", k, <T230 as M>::align()),
        check::<T231>("T231: tuple fields pad_after=3 / -", k, <T231 as M>::align()),
        check::<T232>("T232: enum fields pad_after=3 / -", k, <T232 as M>::align()),
        check::<T233>("T233: named fields pad_after=3 / pad_after=2", k, <T233 as M>::align()),
        check::<T234>("T234: tuple fields pad_after=3 / pad_after=2", k, <T234 as M>::align()),
        check::<T235>("T235: enum fields pad_after=3 / pad_after=2", k, <T235 as M>::align()),
        check::<T236>("T236: named fields pad_after=3 / align_after=8", k, <T236 as M>::align()),
        check::<T237>("T237: tuple fields pad_after=3 / align_after=8", k, <T237 as M>::align()),
        check::<T238>("T238: enum fields pad_after=3 / align_after=8", k, <T238 as M>::align()),
        check::<T239>("T239: named fields pad_after=3,align_after=4 / -", k, <T239 as M>::align()),
        check::<T240>("T240: tuple fields pad_after=3,align_after=4 / -", k, <T240 as M>::align()),
        check::<T241>("T241: enum fields pad_after=3,align_after=4 / -", k, <T241 as M>::align()),
        check::<T242>("T242: named fields pad_after=3,align_after=4 / pad_after=2", k, <T242 as M>::align()),
        check::<T243>("T243: tuple fields pad_after=3,align_after=4 / pad_after=2", k, <T243 as M>::align()),
        check::<T244>("T244: enum fields pad_after=3,align_after=4 / pad_after=2", k, <T244 as M>::align()),
        check::<T245>("T245: named fields pad_after=3,align_after=4 / align_after=8", k, <T245 as M>::align()),
        check::<T246>("T246: tuple fields pad_after=3,align_after=4 / align_after=8", k, <T246 as M>::align()),
        check::<T247>("T247: enum fields pad_after=3,align_after=4 / align_after=8", k, <T247 as M>::align()),
        check::<T248>("T248: variants align_after=4 in pad_after=None", k, <T248 as M>::align()),
        check::<T249>("T249: variants align_after=4 in pad_after=3", k, <T249 as M>::align()),
        check::<T250>("T250: variants pad_after=2 in pad_after=None", k, <T250 as M>::align()),
        check::<T251>("T251: variants pad_after=2 in pad_after=3", k, <T251 as M>::align()),
        check::<T252>("T252: variants pad_after=2,align_after=4 in pad_after=None", k, <T252 as M>::align()),
        check::<T253>("T253: variants pad_after=2,align_after=4 in pad_after=3", k, <T253 as M>::align()),
        check::<T254>("T254: named with u8", k, <T254 as M>::align()),
        check::<T255>("T255: tuple with u8", k, <T255 as M>::align()),
        check::<T256>("T256: enum with u8", k, <T256 as M>::align()),
        check::<T257>("T257: named with u16", k, <T257 as M>::align()),
        check::<T258>("T258: named with u32", k, <T258 as M>::align()),
        check::<T259>("T259: named with u64", k, <T259 as M>::align()),
        check::<T260>("T260: named with u128", k, <T260 as M>::align()),
        check::<T261>("T261: tuple with u128", k, <T261 as M>::align()),
        check::<T262>("T262: enum with u128", k, <T262 as M>::align()),
        check::<T263>("T263: named with i8", k, <T263 as M>::align()),
        check::<T264>("T264: named with i16", k, <T264 as M>::align()),
        check::<T265>("T265: named with i32", k, <T265 as M>::align()),
        check::<T266>("T266: named with i64", k, <T266 as M>::align()),
        check::<T267>("T267: named with i128", k, <T267 as M>::align()),
        check::<T268>("T268: named with f32", k, <T268 as M>::align()),
        check::<T269>("T269: named with f64", k, <T269 as M>::align()),
        check::<T270>("T270: named with NonZeroU8", k, <T270 as M>::align()),
        check::<T271>("T271: named with NonZeroU16", k, <T271 as M>::align()),
        check::<T272>("T272: named with NonZeroU32", k, <T272 as M>::align()),
        check::<T273>("T273: named with NonZeroU64", k, <T273 as M>::align()),
        check::<T274>("T274: named with NonZeroU128", k, <T274 as M>::align()),
        check::<T275>("T275: named with NonZeroI8", k, <T275 as M>::align()),
        check::<T276>("T276: named with NonZeroI16", k, <T276 as M>::align()),
        check::<T277>("T277: named with NonZeroI32", k, <T277 as M>::align()),
        check::<T278>("T278: named with NonZeroI64", k, <T278 as M>::align()),
        check::<T279>("T279: named with NonZeroI128", k, <T279 as M>::align()),
        check::<T280>("T280: named with NonZeroUsize", k, <T280 as M>::align()),
        check::<T281>("T281: named with ()", k, <T281 as M>::align()),
        check::<T282>("T282: tuple with ()", k, <T282 as M>::align()),
        check::<T283>("T283: enum with ()", k, <T283 as M>::align()),
        check::<T284>("T284: named with [u8; 3]", k, <T284 as M>::align()),
        check::<T285>("T285: tuple with [u8; 3]", k, <T285 as M>::align()),
        check::<T286>("T286: enum with [u8; 3]", k, <T286 as M>::align()),
        check::<T287>("T287: named with [u16; 0]", k, <T287 as M>::align()),
        check::<T288>("T288: tuple with [u16; 0]", k, <T288 as M>::align()),
        check::<T289>("T289: enum with [u16; 0]", k, <T289 as M>::align()),
        check::<T290>("T290: named with [u32; 1]", k, <T290 as M>::align()),
        check::<T291>("T291: tuple with [u32; 1]", k, <T291 as M>::align()),
        check::<T292>("T292: enum with [u32; 1]", k, <T292 as M>::align()),
        check::<T293>("T293: named with [[u8; 2]; 3]", k, <T293 as M>::align()),
        check::<T294>("T294: tuple with [[u8; 2]; 3]", k, <T294 as M>::align()),
        check::<T295>("T295: enum with [[u8; 2]; 3]", k, <T295 as M>::align()),
        check::<T296>("T296: named with Vec<u8>", k, <T296 as M>::align()),
        check::<T297>("T297: tuple with Vec<u8>", k, <T297 as M>::align()),
        check::<T298>("T298: enum with Vec<u8>", k, <T298 as M>::align()),
        check::<T299>("T299: named with Vec<u64>", k, <T299 as M>::align()),
        check::<T300>("T300: tuple with Vec<u64>", k, <T300 as M>::align()),
        check::<T301>("T301: enum with Vec<u64>", k, <T301 as M>::align()),
        check::<T302>("T302: named with Option<u8>", k, <T302 as M>::align()),
        check::<T303>("T303: tuple with Option<u8>", k, <T303 as M>::align()),
        check::<T304>("T304: enum with Option<u8>", k, <T304 as M>::align()),
        check::<T305>("T305: named with Option<u32>", k, <T305 as M>::align()),
        check::<T306>("T306: tuple with Option<u32>", k, <T306 as M>::align()),
        check::<T307>("T307: enum with Option<u32>", k, <T307 as M>::align()),
        check::<T308>("T308: named with Option<NonZeroU16>", k, <T308 as M>::align()),
        check::<T309>("T309: tuple with Option<NonZeroU16>", k, <T309 as M>::align()),
        check::<T310>("T310: enum with Option<NonZeroU16>", k, <T310 as M>::align()),
        check::<T311>("T311: named with Vec<Option<u16>>", k, <T311 as M>::align()),
        check::<T312>("T312: tuple with Vec<Option<u16>>", k, <T312 as M>::align()),
        check::<T313>("T313: enum with Vec<Option<u16>>", k, <T313 as M>::align()),
        check::<T314>("T314: named with Option<Vec<u8>>", k, <T314 as M>::align()),
        check::<T315>("T315: tuple with Option<Vec<u8>>", k, <T315 as M>::align()),
        check::<T316>("T316: enum with Option<Vec<u8>>", k, <T316 as M>::align()),
        check::<T317>("T317: named with Vec<Vec<u8>>", k, <T317 as M>::align()),
        check::<T318>("T318: tuple with Vec<Vec<u8>>", k, <T318 as M>::align()),
        check::<T319>("T319: enum with Vec<Vec<u8>>", k, <T319 as M>::align()),
        check::<T320>("T320: named with [Option<u8>; 2]", k, <T320 as M>::align()),
        check::<T321>("T321: tuple with [Option<u8>; 2]", k, <T321 as M>::align()),
        check::<T322>("T322: enum with [Option<u8>; 2]", k, <T322 as M>::align()),
        check::<T323>("T323: named with [Vec<u16>; 2]", k, <T323 as M>::align()),
        check::<T324>("T324: tuple with [Vec<u16>; 2]", k, <T324 as M>::align()),
        check::<T325>("T325: enum with [Vec<u16>; 2]", k, <T325 as M>::align()),
        check::<T326>("T326: named with &'static [u16]", k, <T326 as M>::align()),
        check::<T327>("T327: tuple with &'static [u16]", k, <T327 as M>::align()),
        check::<T328>("T328: enum with &'static [u16]", k, <T328 as M>::align()),
        check::<T329>("T329: named with SsbhString", k, <T329 as M>::align()),
        check::<T330>("T330: tuple with SsbhString", k, <T330 as M>::align()),
        check::<T331>("T331: enum with SsbhString", k, <T331 as M>::align()),
        check::<T332>("T332: named with SsbhString8", k, <T332 as M>::align()),
        check::<T333>("T333: tuple with SsbhString8", k, <T333 as M>::align()),
        check::<T334>("T334: enum with SsbhString8", k, <T334 as M>::align()),
        check::<T335>("T335: named with SsbhByteBuffer", k, <T335 as M>::align()),
        check::<T336>("T336: tuple with SsbhByteBuffer", k, <T336 as M>::align()),
        check::<T337>("T337: enum with SsbhByteBuffer", k, <T337 as M>::align()),
        check::<T338>("T338: named with Option<SsbhString>", k, <T338 as M>::align()),
        check::<T339>("T339: tuple with Option<SsbhString>", k, <T339 as M>::align()),
        check::<T340>("T340: enum with Option<SsbhString>", k, <T340 as M>::align()),
        check::<T341>("T341: named with [SsbhString; 2]", k, <T341 as M>::align()),
        check::<T342>("T342: tuple with [SsbhString; 2]", k, <T342 as M>::align()),
        check::<T343>("T343: enum with [SsbhString; 2]", k, <T343 as M>::align()),
        check::<T344>("T344: named with Vec<SsbhString>", k, <T344 as M>::align()),
        check::<T345>("T345: tuple with Vec<SsbhString>", k, <T345 as M>::align()),
        check::<T346>("T346: enum with Vec<SsbhString>", k, <T346 as M>::align()),
        check::<T347>("T347: named with RelPtr64<u8>", k, <T347 as M>::align()),
        check::<T348>("T348: tuple with RelPtr64<u8>", k, <T348 as M>::align()),
        check::<T349>("T349: enum with RelPtr64<u8>", k, <T349 as M>::align()),
        check::<T350>("T350: named with RelPtr64<u64>", k, <T350 as M>::align()),
        check::<T351>("T351: tuple with RelPtr64<u64>", k, <T351 as M>::align()),
        check::<T352>("T352: enum with RelPtr64<u64>", k, <T352 as M>::align()),
        check::<T353>("T353: named with RelPtr64<[u16; 3]>", k, <T353 as M>::align()),
        check::<T354>("T354: tuple with RelPtr64<[u16; 3]>", k, <T354 as M>::align()),
        check::<T355>("T355: enum with RelPtr64<[u16; 3]>", k, <T355 as M>::align()),
        check::<T356>("T356: named with RelPtr64<SsbhString>", k, <T356 as M>::align()),
        check::<T357>("T357: tuple with RelPtr64<SsbhString>", k, <T357 as M>::align()),
        check::<T358>("T358: enum with RelPtr64<SsbhString>", k, <T358 as M>::align()),
        check::<T359>("T359: named with RelPtr64<SsbhArray<u16>>", k, <T359 as M>::align()),
        check::<T360>("T360: tuple with RelPtr64<SsbhArray<u16>>", k, <T360 as M>::align()),
        check::<T361>("T361: enum with RelPtr64<SsbhArray<u16>>", k, <T361 as M>::align()),
        check::<T362>("T362: named with RelPtr64<RelPtr64<u8>>", k, <T362 as M>::align()),
        check::<T363>("T363: tuple with RelPtr64<RelPtr64<u8>>", k, <T363 as M>::align()),
        check::<T364>("T364: enum with RelPtr64<RelPtr64<u8>>", k, <T364 as M>::align()),
        check::<T365>("T365: named with Ptr64<u32>", k, <T365 as M>::align()),
        check::<T366>("T366: tuple with Ptr64<u32>", k, <T366 as M>::align()),
        check::<T367>("T367: enum with Ptr64<u32>", k, <T367 as M>::align()),
        check::<T368>("T368: named with Ptr64<[u8; 5]>", k, <T368 as M>::align()),
        check::<T369>("T369: tuple with Ptr64<[u8; 5]>", k, <T369 as M>::align()),
        check::<T370>("T370: enum with Ptr64<[u8; 5]>", k, <T370 as M>::align()),
        check::<T371>("T371: named with Ptr64<SsbhString>", k, <T371 as M>::align()),
        check::<T372>("T372: tuple with Ptr64<SsbhString>", k, <T372 as M>::align()),
        check::<T373>("T373: enum with Ptr64<SsbhString>", k, <T373 as M>::align()),
        check::<T374>("T374: named with RelPtr64<Option<u32>>", k, <T374 as M>::align()),
        check::<T375>("T375: tuple with RelPtr64<Option<u32>>", k, <T375 as M>::align()),
        check::<T376>("T376: enum with RelPtr64<Option<u32>>", k, <T376 as M>::align()),
        check::<T377>("T377: named with RelPtr64<Option<SsbhString>>", k, <T377 as M>::align()),
        check::<T378>("T378: tuple with RelPtr64<Option<SsbhString>>", k, <T378 as M>::align()),
        check::<T379>("T379: enum with RelPtr64<Option<SsbhString>>", k, <T379 as M>::align()),
        check::<T380>("T380: named with Ptr64<Option<u64>>", k, <T380 as M>::align()),
        check::<T381>("T381: tuple with Ptr64<Option<u64>>", k, <T381 as M>::align()),
        check::<T382>("T382: enum with Ptr64<Option<u64>>", k, <T382 as M>::align()),
        check::<T383>("T383: named with RelPtr64<Vec<u16>>", k, <T383 as M>::align()),
        check::<T384>("T384: tuple with RelPtr64<Vec<u16>>", k, <T384 as M>::align()),
        check::<T385>("T385: enum with RelPtr64<Vec<u16>>", k, <T385 as M>::align()),
        check::<T386>("T386: named with RelPtr64<[Option<u32>; 2]>", k, <T386 as M>::align()),
        check::<T387>("T387: tuple with RelPtr64<[Option<u32>; 2]>", k, <T387 as M>::align()),
        check::<T388>("T388: enum with RelPtr64<[Option<u32>; 2]>", k, <T388 as M>::align()),
        check::<T389>("T389: named with RelPtr64<()>", k, <T389 as M>::align()),
        check::<T390>("T390: tuple with RelPtr64<()>", k, <T390 as M>::align()),
        check::<T391>("T391: enum with RelPtr64<()>", k, <T391 as M>::align()),
        check::<T392>("T392: named with Ptr64<NonZeroU32>", k, <T392 as M>::align()),
        check::<T393>("T393: tuple with Ptr64<NonZeroU32>", k, <T393 as M>::align()),
        check::<T394>("T394: enum with Ptr64<NonZeroU32>", k, <T394 as M>::align()),
        check::<T395>("T395: named with RelPtr64<Option<NonZeroU64>>", k, <T395 as M>::align()),
        check::<T396>("T396: tuple with RelPtr64<Option<NonZeroU64>>", k, <T396 as M>::align()),
        check::<T397>("T397: enum with RelPtr64<Option<NonZeroU64>>", k, <T397 as M>::align()),
        check::<T398>("T398: named with RelPtr64<SsbhByteBuffer>", k, <T398 as M>::align()),
        check::<T399>("T399: tuple with RelPtr64<SsbhByteBuffer>", k, <T399 as M>::align()),
        check::<T400>("T400: enum with RelPtr64<SsbhByteBuffer>", k, <T400 as M>::align()),
        check::<T401>("T401: named with Ptr64<SsbhArray<u32>>", k, <T401 as M>::align()),
        check::<T402>("T402: tuple with Ptr64<SsbhArray<u32>>", k, <T402 as M>::align()),
        check::<T403>("T403: enum with Ptr64<SsbhArray<u32>>", k, <T403 as M>::align()),
        check::<T404>("T404: named with SsbhArray<u8>", k, <T404 as M>::align()),
        check::<T405>("T405: tuple with SsbhArray<u8>", k, <T405 as M>::align()),
        check::<T406>("T406: enum with SsbhArray<u8>", k, <T406 as M>::align()),
        check::<T407>("T407: named with SsbhArray<u16>", k, <T407 as M>::align()),
        check::<T408>("T408: tuple with SsbhArray<u16>", k, <T408 as M>::align()),
        check::<T409>("T409: enum with SsbhArray<u16>", k, <T409 as M>::align()),
        check::<T410>("T410: named with SsbhArray<SsbhString>", k, <T410 as M>::align()),
        check::<T411>("T411: tuple with SsbhArray<SsbhString>", k, <T411 as M>::align()),
        check::<T412>("T412: enum with SsbhArray<SsbhString>", k, <T412 as M>::align()),
        check::<T413>("T413: named with SsbhArray<SsbhArray<u8>>", k, <T413 as M>::align()),
        check::<T414>("T414: tuple with SsbhArray<SsbhArray<u8>>", k, <T414 as M>::align()),
        check::<T415>("T415: enum with SsbhArray<SsbhArray<u8>>", k, <T415 as M>::align()),
        check::<T416>("T416: named with SsbhArray<RelPtr64<u16>>", k, <T416 as M>::align()),
        check::<T417>("T417: tuple with SsbhArray<RelPtr64<u16>>", k, <T417 as M>::align()),
        check::<T418>("T418: enum with SsbhArray<RelPtr64<u16>>", k, <T418 as M>::align()),
        check::<T419>("T419: named with SsbhArray<Option<u16>>", k, <T419 as M>::align()),
        check::<T420>("T420: tuple with SsbhArray<Option<u16>>", k, <T420 as M>::align()),
        check::<T421>("T421: enum with SsbhArray<Option<u16>>", k, <T421 as M>::align()),
        check::<T422>("T422: named with SsbhArray<SsbhByteBuffer>", k, <T422 as M>::align()),
        check::<T423>("T423: tuple with SsbhArray<SsbhByteBuffer>", k, <T423 as M>::align()),
        check::<T424>("T424: enum with SsbhArray<SsbhByteBuffer>", k, <T424 as M>::align()),
        check::<T425>("T425: named with CString<1>", k, <T425 as M>::align()),
        check::<T426>("T426: tuple with CString<1>", k, <T426 as M>::align()),
        check::<T427>("T427: enum with CString<1>", k, <T427 as M>::align()),
        check::<T428>("T428: named with CString<4>", k, <T428 as M>::align()),
        check::<T429>("T429: tuple with CString<4>", k, <T429 as M>::align()),
        check::<T430>("T430: enum with CString<4>", k, <T430 as M>::align()),
        check::<T431>("T431: named with Option<CString<1>>", k, <T431 as M>::align()),
        check::<T432>("T432: tuple with Option<CString<1>>", k, <T432 as M>::align()),
        check::<T433>("T433: enum with Option<CString<1>>", k, <T433 as M>::align()),
        check::<T434>("T434: named with Vec<CString<1>>", k, <T434 as M>::align()),
        check::<T435>("T435: tuple with Vec<CString<1>>", k, <T435 as M>::align()),
        check::<T436>("T436: enum with Vec<CString<1>>", k, <T436 as M>::align()),
        check::<T437>("T437: named with SsbhArray<CString<1>>", k, <T437 as M>::align()),
        check::<T438>("T438: tuple with SsbhArray<CString<1>>", k, <T438 as M>::align()),
        check::<T439>("T439: enum with SsbhArray<CString<1>>", k, <T439 as M>::align()),
        check::<T440>("T440: named with SsbhArray<CString<4>>", k, <T440 as M>::align()),
        check::<T441>("T441: tuple with SsbhArray<CString<4>>", k, <T441 as M>::align()),
        check::<T442>("T442: enum with SsbhArray<CString<4>>", k, <T442 as M>::align()),
        check::<T443>("T443: named with RelPtr64<CString<1>>", k, <T443 as M>::align()),
        check::<T444>("T444: tuple with RelPtr64<CString<1>>", k, <T444 as M>::align()),
        check::<T445>("T445: enum with RelPtr64<CString<1>>", k, <T445 as M>::align()),
        check::<T446>("T446: named with RelPtr64<CString<8>>", k, <T446 as M>::align()),
        check::<T447>("T447: tuple with RelPtr64<CString<8>>", k, <T447 as M>::align()),
        check::<T448>("T448: enum with RelPtr64<CString<8>>", k, <T448 as M>::align()),
        check::<T449>("T449: named with RelPtr64<Vec<CString<1>>>", k, <T449 as M>::align()),
        check::<T450>("T450: tuple with RelPtr64<Vec<CString<1>>>", k, <T450 as M>::align()),
        check::<T451>("T451: enum with RelPtr64<Vec<CString<1>>>", k, <T451 as M>::align()),
        check::<T452>("T452: named with Ptr64<CString<16>>", k, <T452 as M>::align()),
        check::<T453>("T453: tuple with Ptr64<CString<16>>", k, <T453 as M>::align()),
        check::<T454>("T454: enum with Ptr64<CString<16>>", k, <T454 as M>::align()),
        check::<T455>("T455: named with Ptr16<u8>", k, <T455 as M>::align()),
        check::<T456>("T456: tuple with Ptr16<u8>", k, <T456 as M>::align()),
        check::<T457>("T457: enum with Ptr16<u8>", k, <T457 as M>::align()),
        check::<T458>("T458: named with Ptr16<u64>", k, <T458 as M>::align()),
        check::<T459>("T459: tuple with Ptr16<u64>", k, <T459 as M>::align()),
        check::<T460>("T460: enum with Ptr16<u64>", k, <T460 as M>::align()),
        check::<T461>("T461: named with Ptr32<SsbhString>", k, <T461 as M>::align()),
        check::<T462>("T462: tuple with Ptr32<SsbhString>", k, <T462 as M>::align()),
        check::<T463>("T463: enum with Ptr32<SsbhString>", k, <T463 as M>::align()),
        check::<T464>("T464: named with Ptr32<u16>", k, <T464 as M>::align()),
        check::<T465>("T465: tuple with Ptr32<u16>", k, <T465 as M>::align()),
        check::<T466>("T466: enum with Ptr32<u16>", k, <T466 as M>::align()),
        check::<T467>("T467: named with Ptr16<Ptr32<u16>>", k, <T467 as M>::align()),
        check::<T468>("T468: tuple with Ptr16<Ptr32<u16>>", k, <T468 as M>::align()),
        check::<T469>("T469: enum with Ptr16<Ptr32<u16>>", k, <T469 as M>::align()),
        check::<T470>("T470: named with Vec<Ptr16<u8>>", k, <T470 as M>::align()),
        check::<T471>("T471: tuple with Vec<Ptr16<u8>>", k, <T471 as M>::align()),
        check::<T472>("T472: enum with Vec<Ptr16<u8>>", k, <T472 as M>::align()),
        check::<T473>("T473: named with SsbhArray<Ptr16<u8>>", k, <T473 as M>::align()),
        check::<T474>("T474: tuple with SsbhArray<Ptr16<u8>>", k, <T474 as M>::align()),
        check::<T475>("T475: enum with SsbhArray<Ptr16<u8>>", k, <T475 as M>::align()),
        check::<T476>("T476: named with Option<Ptr32<u32>>", k, <T476 as M>::align()),
        check::<T477>("T477: tuple with Option<Ptr32<u32>>", k, <T477 as M>::align()),
        check::<T478>("T478: enum with Option<Ptr32<u32>>", k, <T478 as M>::align()),
        check::<T479>("T479: repr u8", k, <T479 as M>::align()),
        check::<T480>("T480: named with T479 (u8)", k, <T480 as M>::align()),
        check::<T481>("T481: pointer to T479 (u8)", k, <T481 as M>::align()),
        check::<T482>("T482: repr u16", k, <T482 as M>::align()),
        check::<T483>("T483: named with T482 (u16)", k, <T483 as M>::align()),
        check::<T484>("T484: pointer to T482 (u16)", k, <T484 as M>::align()),
        check::<T485>("T485: repr u32", k, <T485 as M>::align()),
        check::<T486>("T486: named with T485 (u32)", k, <T486 as M>::align()),
        check::<T487>("T487: pointer to T485 (u32)", k, <T487 as M>::align()),
        check::<T488>("T488: repr u64", k, <T488 as M>::align()),
        check::<T489>("T489: named with T488 (u64)", k, <T489 as M>::align()),
        check::<T490>("T490: pointer to T488 (u64)", k, <T490 as M>::align()),
        check::<T491>("T491: repr i8", k, <T491 as M>::align()),
        check::<T492>("T492: named with T491 (i8)", k, <T492 as M>::align()),
        check::<T493>("T493: pointer to T491 (i8)", k, <T493 as M>::align()),
        check::<T494>("T494: repr i16", k, <T494 as M>::align()),
        check::<T495>("T495: named with T494 (i16)", k, <T495 as M>::align()),
        check::<T496>("T496: pointer to T494 (i16)", k, <T496 as M>::align()),
        check::<T497>("T497: repr i32", k, <T497 as M>::align()),
        check::<T498>("T498: named with T497 (i32)", k, <T498 as M>::align()),
        check::<T499>("T499: pointer to T497 (i32)", k, <T499 as M>::align()),
        check::<T500>("T500: repr i64", k, <T500 as M>::align()),
        check::<T501>("T501: named with T500 (i64)", k, <T501 as M>::align()),
        check::<T502>("T502: pointer to T500 (i64)", k, <T502 as M>::align()),
        check::<T503>("T503: inner padded", k, <T503 as M>::align()),
        check::<T504>("T504: inner magic", k, <T504 as M>::align()),
        check::<T505>("T505: inner enum", k, <T505 as M>::align()),
        check::<T506>("T506: inner aligned", k, <T506 as M>::align()),
        check::<T507>("T507: inner pointers", k, <T507 as M>::align()),
        check::<T508>("T508: inner deep", k, <T508 as M>::align()),
        check::<T509>("T509: inner repr", k, <T509 as M>::align()),
        check::<T510>("T510: inner option", k, <T510 as M>::align()),
        check::<T511>("T511: nested padded T503", k, <T511 as M>::align()),
        check::<T512>("T512: nested padded [T503; 2]", k, <T512 as M>::align()),
        check::<T513>("T513: nested padded Vec<T503>", k, <T513 as M>::align()),
        check::<T514>("T514: nested padded Option<T503>", k, <T514 as M>::align()),
        check::<T515>("T515: nested padded Vec<Option<T503>>", k, <T515 as M>::align()),
        check::<T516>("T516: nested padded RelPtr64<T503>", k, <T516 as M>::align()),
        check::<T517>("T517: nested padded RelPtr64<[T503; 2]>", k, <T517 as M>::align()),
        check::<T518>("T518: nested padded RelPtr64<Vec<T503>>", k, <T518 as M>::align()),
        check::<T519>("T519: nested padded Ptr64<T503>", k, <T519 as M>::align()),
        check::<T520>("T520: nested padded SsbhArray<T503>", k, <T520 as M>::align()),
        check::<T521>("T521: nested padded SsbhArray<RelPtr64<T503>>", k, <T521 as M>::align()),
        check::<T522>("T522: nested padded RelPtr64<Option<T503>>", k, <T522 as M>::align()),
        check::<T523>("T523: nested padded RelPtr64<[Option<T503>; 2]>", k, <T523 as M>::align()),
        check::<T524>("T524: nested padded RelPtr64<Option<Vec<T503>>>", k, <T524 as M>::align()),
        check::<T525>("T525: nested padded Ptr64<Option<T503>>", k, <T525 as M>::align()),
        check::<T526>("T526: nested padded SsbhArray<Option<T503>>", k, <T526 as M>::align()),
        check::<T527>("T527: nested padded SsbhArray<Vec<T503>>", k, <T527 as M>::align()),
        check::<T528>("T528: nested padded SsbhArray<[T503; 2]>", k, <T528 as M>::align()),
        check::<T529>("T529: nested padded Ptr32<Vec<T503>>", k, <T529 as M>::align()),
        check::<T530>("T530: nested padded RelPtr64<RelPtr64<T503>>", k, <T530 as M>::align()),
        check::<T531>("T531: nested padded SsbhArray<T503>", k, <T531 as M>::align()),
        check::<T532>("T532: nested padded SsbhArray<T503>", k, <T532 as M>::align()),
        check::<T533>("T533: nested magic T504", k, <T533 as M>::align()),
        check::<T534>("T534: nested magic [T504; 2]", k, <T534 as M>::align()),
        check::<T535>("T535: nested magic Vec<T504>", k, <T535 as M>::align()),
        check::<T536>("T536: nested magic Option<T504>", k, <T536 as M>::align()),
        check::<T537>("T537: nested magic Vec<Option<T504>>", k, <T537 as M>::align()),
        check::<T538>("T538: nested magic RelPtr64<T504>", k, <T538 as M>::align()),
        check::<T539>("T539: nested magic RelPtr64<[T504; 2]>", k, <T539 as M>::align()),
        check::<T540>("T540: nested magic RelPtr64<Vec<T504>>", k, <T540 as M>::align()),
        check::<T541>("T541: nested magic Ptr64<T504>", k, <T541 as M>::align()),
        check::<T542>("T542: nested magic SsbhArray<T504>", k, <T542 as M>::align()),
        check::<T543>("T543: nested magic SsbhArray<RelPtr64<T504>>", k, <T543 as M>::align()),
        check::<T544>("T544: nested magic RelPtr64<Option<T504>>", k, <T544 as M>::align()),
        check::<T545>("T545: nested magic RelPtr64<[Option<T504>; 2]>", k, <T545 as M>::align()),
        check::<T546>("T546: nested magic RelPtr64<Option<Vec<T504>>>", k, <T546 as M>::align()),
        check::<T547>("T547: nested magic Ptr64<Option<T504>>", k, <T547 as M>::align()),
        check::<T548>("T548: nested magic SsbhArray<Option<T504>>", k, <T548 as M>::align()),
        check::<T549>("T549: nested magic SsbhArray<Vec<T504>>", k, <T549 as M>::align()),
        check::<T550>("T550: nested magic SsbhArray<[T504; 2]>", k, <T550 as M>::align()),
        check::<T551>("T551: nested magic Ptr32<Vec<T504>>", k, <T551 as M>::align()),
        check::<T552>("T552: nested magic RelPtr64<RelPtr64<T504>>", k, <T552 as M>::align()),
        check::<T553>("T553: nested magic SsbhArray<T504>", k, <T553 as M>::align()),
        check::<T554>("T554: nested magic SsbhArray<T504>", k, <T554 as M>::align()),
        check::<T555>("T555: nested enum T505", k, <T555 as M>::align()),
        check::<T556>("T556: nested enum [T505; 2]", k, <T556 as M>::align()),
        check::<T557>("T557: nested enum Vec<T505>", k, <T557 as M>::align()),
        check::<T558>("T558: nested enum Option<T505>", k, <T558 as M>::align()),
        check::<T559>("T559: nested enum Vec<Option<T505>>", k, <T559 as M>::align()),
        check::<T560>("T560: nested enum RelPtr64<T505>", k, <T560 as M>::align()),
        check::<T561>("T561: nested enum RelPtr64<[T505; 2]>", k, <T561 as M>::align()),
        check::<T562>("T562: nested enum RelPtr64<Vec<T505>>", k, <T562 as M>::align()),
        check::<T563>("T563: nested enum Ptr64<T505>", k, <T563 as M>::align()),
        check::<T564>("T564: nested enum SsbhArray<T505>", k, <T564 as M>::align()),
        check::<T565>("T565: nested enum SsbhArray<RelPtr64<T505>>", k, <T565 as M>::align()),
        check::<T566>("T566: nested enum RelPtr64<Option<T505>>", k, <T566 as M>::align()),
        check::<T567>("T567: nested enum RelPtr64<[Option<T505>; 2]>", k, <T567 as M>::align()),
        check::<T568>("T568: nested enum RelPtr64<Option<Vec<T505>>>", k, <T568 as M>::align()),
        check::<T569>("T569: nested enum Ptr64<Option<T505>>", k, <T569 as M>::align()),
        check::<T570>("T570: nested enum SsbhArray<Option<T505>>", k, <T570 as M>::align()),
        check::<T571>("T571: nested enum SsbhArray<Vec<T505>>", k, <T571 as M>::align()),
        check::<T572>("T572: nested enum SsbhArray<[T505; 2]>", k, <T572 as M>::align()),
        check::<T573>("T573: nested enum Ptr32<Vec<T505>>", k, <T573 as M>::align()),
        check::<T574>("T574: nested enum RelPtr64<RelPtr64<T505>>", k, <T574 as M>::align()),
        check::<T575>("T575: nested enum SsbhArray<T505>", k, <T575 as M>::align()),
        check::<T576>("T576: nested enum SsbhArray<T505>", k, <T576 as M>::align()),
        check::<T577>("T577: nested aligned T506", k, <T577 as M>::align()),
        check::<T578>("T578: nested aligned [T506; 2]", k, <T578 as M>::align()),
        check::<T579>("T579: nested aligned Vec<T506>", k, <T579 as M>::align()),
        check::<T580>("T580: nested aligned Option<T506>", k, <T580 as M>::align()),
        check::<T581>("T581: nested aligned Vec<Option<T506>>", k, <T581 as M>::align()),
        check::<T582>("T582: nested aligned RelPtr64<T506>", k, <T582 as M>::align()),
        check::<T583>("T583: nested aligned RelPtr64<[T506; 2]>", k, <T583 as M>::align()),
        check::<T584>("T584: nested aligned RelPtr64<Vec<T506>>", k, <T584 as M>::align()),
        check::<T585>("T585: nested aligned Ptr64<T506>", k, <T585 as M>::align()),
        check::<T586>("T586: nested aligned SsbhArray<T506>", k, <T586 as M>::align()),
        check::<T587>("T587: nested aligned SsbhArray<RelPtr64<T506>>", k, <T587 as M>::align()),
        check::<T588>("T588: nested aligned RelPtr64<Option<T506>>", k, <T588 as M>::align()),
        check::<T589>("T589: nested aligned RelPtr64<[Option<T506>; 2]>", k, <T589 as M>::align()),
        check::<T590>("T590: nested aligned RelPtr64<Option<Vec<T506>>>", k, <T590 as M>::align()),
        check::<T591>("T591: nested aligned Ptr64<Option<T506>>", k, <T591 as M>::align()),
        check::<T592>("T592: nested aligned SsbhArray<Option<T506>>", k, <T592 as M>::align()),
        check::<T593>("T593: nested aligned SsbhArray<Vec<T506>>", k, <T593 as M>::align()),
        check::<T594>("T594: nested aligned SsbhArray<[T506; 2]>", k, <T594 as M>::align()),
        check::<T595>("T595: nested aligned Ptr32<Vec<T506>>", k, <T595 as M>::align()),
        check::<T596>("T596: nested aligned RelPtr64<RelPtr64<T506>>", k, <T596 as M>::align()),
        check::<T597>("T597: nested aligned SsbhArray<T506>", k, <T597 as M>::align()),
        check::<T598>("T598: nested aligned SsbhArray<T506>", k, <T598 as M>::align()),
        check::<T599>("T599: nested pointers T507", k, <T599 as M>::align()),
        check::<T600>("T600: nested pointers [T507; 2]", k, <T600 as M>::align()),
        check::<T601>("T601: nested pointers Vec<T507>", k, <T601 as M>::align()),
        check::<T602>("T602: nested pointers Option<T507>", k, <T602 as M>::align()),
        check::<T603>("T603: nested pointers Vec<Option<T507>>", k, <T603 as M>::align()),
        check::<T604>("T604: nested pointers RelPtr64<T507>", k, <T604 as M>::align()),
        check::<T605>("T605: nested pointers RelPtr64<[T507; 2]>", k, <T605 as M>::align()),
        check::<T606>("T606: nested pointers RelPtr64<Vec<T507>>", k, <T606 as M>::align()),
        check::<T607>("T607: nested pointers Ptr64<T507>", k, <T607 as M>::align()),
        check::<T608>("T608: nested pointers SsbhArray<T507>", k, <T608 as M>::align()),
        check::<T609>("T609: nested pointers SsbhArray<RelPtr64<T507>>", k, <T609 as M>::align()),
        check::<T610>("T610: nested pointers RelPtr64<Option<T507>>", k, <T610 as M>::align()),
        check::<T611>("T611: nested pointers RelPtr64<[Option<T507>; 2]>", k, <T611 as M>::align()),
        check::<T612>("T612: nested pointers RelPtr64<Option<Vec<T507>>>", k, <T612 as M>::align()),
        check::<T613>("T613: nested pointers Ptr64<Option<T507>>", k, <T613 as M>::align()),
        check::<T614>("T614: nested pointers SsbhArray<Option<T507>>", k, <T614 as M>::align()),
        check::<T615>("T615: nested pointers SsbhArray<Vec<T507>>", k, <T615 as M>::align()),
        check::<T616>("T616: nested pointers SsbhArray<[T507; 2]>", k, <T616 as M>::align()),
        check::<T617>("T617: nested pointers Ptr32<Vec<T507>>", k, <T617 as M>::align()),
        check::<T618>("T618: nested pointers RelPtr64<RelPtr64<T507>>", k, <T618 as M>::align()),
        check::<T619>("T619: nested pointers SsbhArray<T507>", k, <T619 as M>::align()),
        check::<T620>("T620: nested pointers SsbhArray<T507>", k, <T620 as M>::align()),
        check::<T621>("T621: nested deep T508", k, <T621 as M>::align()),
        check::<T622>("T622: nested deep [T508; 2]", k, <T622 as M>::align()),
        check::<T623>("T623: nested deep Vec<T508>", k, <T623 as M>::align()),
        check::<T624>("T624: nested deep Option<T508>", k, <T624 as M>::align()),
        check::<T625>("T625: nested deep Vec<Option<T508>>", k, <T625 as M>::align()),
        check::<T626>("T626: nested deep RelPtr64<T508>", k, <T626 as M>::align()),
        check::<T627>("T627: nested deep RelPtr64<[T508; 2]>", k, <T627 as M>::align()),
        check::<T628>("T628: nested deep RelPtr64<Vec<T508>>", k, <T628 as M>::align()),
        check::<T629>("T629: nested deep Ptr64<T508>", k, <T629 as M>::align()),
        check::<T630>("T630: nested deep SsbhArray<T508>", k, <T630 as M>::align()),
        check::<T631>("T631: nested deep SsbhArray<RelPtr64<T508>>", k, <T631 as M>::align()),
        check::<T632>("T632: nested deep RelPtr64<Option<T508>>", k, <T632 as M>::align()),
        check::<T633>("T633: nested deep RelPtr64<[Option<T508>; 2]>", k, <T633 as M>::align()),
        check::<T634>("T634: nested deep RelPtr64<Option<Vec<T508>>>", k, <T634 as M>::align()),
        check::<T635>("T635: nested deep Ptr64<Option<T508>>", k, <T635 as M>::align()),
        check::<T636>("T636: nested deep SsbhArray<Option<T508>>", k, <T636 as M>::align()),
        check::<T637>("T637: nested deep SsbhArray<Vec<T508>>", k, <T637 as M>::align()),
        check::<T638>("T638: nested deep SsbhArray<[T508; 2]>", k, <T638 as M>::align()),
        check::<T639>("T639: nested deep Ptr32<Vec<T508>>", k, <T639 as M>::align()),
        check::<T640>("T640: nested deep RelPtr64<RelPtr64<T508>>", k, <T640 as M>::align()),
        check::<T641>("T641: nested deep SsbhArray<T508>", k, <T641 as M>::align()),
        check::<T642>("T642: nested deep SsbhArray<T508>", k, <T642 as M>::align()),
        check::<T643>("T643: nested repr T509", k, <T643 as M>::align()),
        check::<T644>("T644: nested repr [T509; 2]", k, <T644 as M>::align()),
        check::<T645>("T645: nested repr Vec<T509>", k, <T645 as M>::align()),
        check::<T646>("T646: nested repr Option<T509>", k, <T646 as M>::align()),
        check::<T647>("T647: nested repr Vec<Option<T509>>", k, <T647 as M>::align()),
        check::<T648>("T648: nested repr RelPtr64<T509>", k, <T648 as M>::align()),
        check::<T649>("T649: nested repr RelPtr64<[T509; 2]>", k, <T649 as M>::align()),
        check::<T650>("T650: nested repr RelPtr64<Vec<T509>>", k, <T650 as M>::align()),
        check::<T651>("T651: nested repr Ptr64<T509>", k, <T651 as M>::align()),
        check::<T652>("T652: nested repr SsbhArray<T509>", k, <T652 as M>::align()),
        check::<T653>("T653: nested repr SsbhArray<RelPtr64<T509>>", k, <T653 as M>::align()),
        check::<T654>("T654: nested repr RelPtr64<Option<T509>>", k, <T654 as M>::align()),
        check::<T655>("T655: nested repr RelPtr64<[Option<T509>; 2]>", k, <T655 as M>::align()),
        check::<T656>("T656: nested repr RelPtr64<Option<Vec<T509>>>", k, <T656 as M>::align()),
        check::<T657>("T657: nested repr Ptr64<Option<T509>>", k, <T657 as M>::align()),
        check::<T658>("T658: nested repr SsbhArray<Option<T509>>", k, <T658 as M>::align()),
        check::<T659>("T659: nested repr SsbhArray<Vec<T509>>", k, <T659 as M>::align()),
        check::<T660>("T660: nested repr SsbhArray<[T509; 2]>", k, <T660 as M>::align()),
        check::<T661>("T661: nested repr Ptr32<Vec<T509>>", k, <T661 as M>::align()),
        check::<T662>("T662: nested repr RelPtr64<RelPtr64<T509>>", k, <T662 as M>::align()),
        check::<T663>("T663: nested repr SsbhArray<T509>", k, <T663 as M>::align()),
        check::<T664>("T664: nested repr SsbhArray<T509>", k, <T664 as M>::align()),
        check::<T665>("T665: nested option T510", k, <T665 as M>::align()),
        check::<T666>("T666: nested option [T510; 2]", k, <T666 as M>::align()),
        check::<T667>("T667: nested option Vec<T510>", k, <T667 as M>::align()),
        check::<T668>("T668: nested option Option<T510>", k, <T668 as M>::align()),
        check::<T669>("T669: nested option Vec<Option<T510>>", k, <T669 as M>::align()),
        check::<T670>("T670: nested option RelPtr64<T510>", k, <T670 as M>::align()),
        check::<T671>("T671: nested option RelPtr64<[T510; 2]>", k, <T671 as M>::align()),
        check::<T672>("T672: nested option RelPtr64<Vec<T510>>", k, <T672 as M>::align()),
        check::<T673>("T673: nested option Ptr64<T510>", k, <T673 as M>::align()),
        check::<T674>("T674: nested option SsbhArray<T510>", k, <T674 as M>::align()),
        check::<T675>("T675: nested option SsbhArray<RelPtr64<T510>>", k, <T675 as M>::align()),
        check::<T676>("T676: nested option RelPtr64<Option<T510>>", k, <T676 as M>::align()),
        check::<T677>("T677: nested option RelPtr64<[Option<T510>; 2]>", k, <T677 as M>::align()),
        check::<T678>("T678: nested option RelPtr64<Option<Vec<T510>>>", k, <T678 as M>::align()),
        check::<T679>("T679: nested option Ptr64<Option<T510>>", k, <T679 as M>::align()),
        check::<T680>("T680: nested option SsbhArray<Option<T510>>", k, <T680 as M>::align()),
        check::<T681>("T681: nested option SsbhArray<Vec<T510>>", k, <T681 as M>::align()),
        check::<T682>("T682: nested option SsbhArray<[T510; 2]>", k, <T682 as M>::align()),
        check::<T683>("T683: nested option Ptr32<Vec<T510>>", k, <T683 as M>::align()),
        check::<T684>("T684: nested option RelPtr64<RelPtr64<T510>>", k, <T684 as M>::align()),
        check::<T685>("T685: nested option SsbhArray<T510>", k, <T685 as M>::align()),
        check::<T686>("T686: nested option SsbhArray<T510>", k, <T686 as M>::align()),
        check::<T687>("T687: inner align", k, <T687 as M>::align()),
        check::<T688>("T688: nested align T687", k, <T688 as M>::align()),
        check::<T689>("T689: nested align [T687; 3]", k, <T689 as M>::align()),
        check::<T690>("T690: nested align Vec<T687>", k, <T690 as M>::align()),
        check::<T691>("T691: nested align Option<T687>", k, <T691 as M>::align()),
        check::<T692<u16>>("T692: inner generic", k, <T692<u16> as M>::align()),
        check::<T693>("T693: generic T692<u8>", k, <T693 as M>::align()),
        check::<T694>("T694: generic T692<SsbhString>", k, <T694 as M>::align()),
        check::<T695>("T695: generic T692<Option<u16>>", k, <T695 as M>::align()),
        check::<T696>("T696: generic T692<[u8; 2]>", k, <T696 as M>::align()),
        check::<T697>("T697: generic T692<T692<u16>>", k, <T697 as M>::align()),
        check::<T698<'static>>("T698: lifetime", k, <T698<'static> as M>::align()),
        check::<T699<3>>("T699: const", k, <T699<3> as M>::align()),
        check::<T700<Option<u8>, SsbhArray<u8>>>("T700: where", k, <T700<Option<u8>, SsbhArray<u8>> as M>::align()),
        check::<T701<SsbhString>>("T701: generic enum", k, <T701<SsbhString> as M>::align()),
    ]
}
