//! Subjects crossing the Arrow C Data Interface.
#![allow(unexpected_cfgs)]
use narrow::buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
#[cfg(narrow_verif)]
use narrow::layout::variable_size_list::VariableSizeList;
#[cfg(narrow_verif)]
use narrow::nullability::{NonNullable, Nullable};
use narrow::array::Array;
#[cfg(narrow_verif)]
use narrow_ffi::{export_layout, import_layout};
#[cfg(narrow_verif)]
use vh::ffi::run_large;
use vh::ffi::{build_ro, run};
use vh::json::J;
use vh::phys::Phys;
use vh::run::build as build_rw;
use vh::tracked::TBuf;

type Ob<T> = Option<T>;
type Sl = SliceBuffer<'static>;

macro_rules! subjects {
    (arrays { $(($kind:ident, $name:literal, $t:ty, $s:ty)),* $(,)? } large { $(($lkind:ident, $lname:literal, $lt:ty, $ln:ty, $ls:ty)),* $(,)? }) => {
        fn run_one(j: &J) -> String {
            match j.get("sub").str() {
                $($name => run::<$t, $s>(j, $kind::<Array<$t, $s>>),)*
                $(#[cfg(narrow_verif)] $lname => run_large::<$lt, $ln, $ls>(j, $lkind::<VariableSizeList<$lt, $ln, i64, $ls>>, export_layout, import_layout),)*
                s => panic!("script: unknown subject {s}"),
            }
        }
        fn list() -> String {
            let mut o = String::from("[");
            $(one::<Array<$t, $s>>($name, stringify!($kind), &mut o);)*
            $(#[cfg(narrow_verif)] one::<VariableSizeList<$lt, $ln, i64, $ls>>($lname, stringify!($lkind), &mut o);)*
            o.push(']');
            o
        }
    };
}
fn one<C: Phys>(name: &str, kind: &str, o: &mut String) {
    if o.len() > 1 {
        o.push(',');
    }
    o.push_str("{\"sub\":\"");
    o.push_str(name);
    o.push_str("\",\"kind\":\"");
    o.push_str(kind);
    o.push_str("\",\"L\":");
    C::layout(o);
    o.push('}');
}

subjects! {
    arrays {
        (build_rw, "i8", i8, VecBuffer), (build_rw, "u8", u8, VecBuffer), (build_rw, "i16", i16, VecBuffer), (build_rw, "u16", u16, VecBuffer),
        (build_rw, "i32", i32, VecBuffer), (build_rw, "u32", u32, VecBuffer), (build_rw, "i64", i64, VecBuffer), (build_rw, "u64", u64, VecBuffer),
        (build_rw, "f32", f32, VecBuffer), (build_rw, "f64", f64, VecBuffer), (build_rw, "bool", bool, VecBuffer),
        (build_rw, "?i8", Ob<i8>, VecBuffer), (build_rw, "?u8", Ob<u8>, VecBuffer), (build_rw, "?i16", Ob<i16>, VecBuffer), (build_rw, "?u16", Ob<u16>, VecBuffer),
        (build_rw, "?i32", Ob<i32>, VecBuffer), (build_rw, "?u32", Ob<u32>, VecBuffer), (build_rw, "?i64", Ob<i64>, VecBuffer), (build_rw, "?u64", Ob<u64>, VecBuffer),
        (build_rw, "?f32", Ob<f32>, VecBuffer), (build_rw, "?f64", Ob<f64>, VecBuffer), (build_rw, "?bool", Ob<bool>, VecBuffer),
        (build_rw, "u8*2", [u8; 2], VecBuffer), (build_rw, "?(u8*2)", Ob<[u8; 2]>, VecBuffer), (build_rw, "?i32*1", [Ob<i32>; 1], VecBuffer),
        (build_rw, "bool*3", [bool; 3], VecBuffer), (build_rw, "?(?bool*3)", Ob<[Ob<bool>; 3]>, VecBuffer), (build_rw, "u8*2*2", [[u8; 2]; 2], VecBuffer),
        (build_rw, "[u8]*2", [Vec<u8>; 2], VecBuffer), (build_rw, "?(?[?u8]*2)", Ob<[Ob<Vec<Ob<u8>>>; 2]>, VecBuffer), (build_rw, "i16*10", [i16; 10], VecBuffer),
        (build_rw, "[u8]", Vec<u8>, VecBuffer), (build_rw, "?[u8]", Ob<Vec<u8>>, VecBuffer), (build_rw, "[?f64]", Vec<Ob<f64>>, VecBuffer), (build_rw, "[bool]", Vec<bool>, VecBuffer),
        (build_rw, "?[?bool]", Ob<Vec<Ob<bool>>>, VecBuffer), (build_rw, "[[u16]]", Vec<Vec<u16>>, VecBuffer), (build_rw, "?[?[?i64]]", Ob<Vec<Ob<Vec<Ob<i64>>>>>, VecBuffer),
        (build_rw, "[u8*2]", Vec<[u8; 2]>, VecBuffer), (build_rw, "?[?(?u16*2)]", Ob<Vec<Ob<[Ob<u16>; 2]>>>, VecBuffer), (build_rw, "[?(bool*3)]", Vec<Ob<[bool; 3]>>, VecBuffer),
        (build_rw, "?[?([?[?bool]]*2)]", Ob<Vec<Ob<[Vec<Ob<Vec<Ob<bool>>>>; 2]>>>, VecBuffer),
        (build_rw, "t:?i32", Ob<i32>, TBuf), (build_rw, "t:bool", bool, TBuf), (build_rw, "t:?[?u8]", Ob<Vec<Ob<u8>>>, TBuf), (build_rw, "t:?(?u16*2)", Ob<[Ob<u16>; 2]>, TBuf),
        (build_ro, "box:?u8", Ob<u8>, BoxBuffer), (build_ro, "box:?[?bool]", Ob<Vec<Ob<bool>>>, BoxBuffer), (build_ro, "box:[?(i32*2)]", Vec<Ob<[i32; 2]>>, BoxBuffer), (build_ro, "box:?bool", Ob<bool>, BoxBuffer),
        (build_ro, "rc:u32", u32, RcBuffer), (build_ro, "rc:?bool", Ob<bool>, RcBuffer), (build_ro, "rc:?[?u16]", Ob<Vec<Ob<u16>>>, RcBuffer), (build_ro, "rc:?(bool*3)", Ob<[bool; 3]>, RcBuffer),
        (build_ro, "arc:u32", u32, ArcBuffer), (build_ro, "arc:?bool", Ob<bool>, ArcBuffer), (build_ro, "arc:?[?u16]", Ob<Vec<Ob<u16>>>, ArcBuffer), (build_ro, "arc:[?(?u8*2)]", Vec<Ob<[Ob<u8>; 2]>>, ArcBuffer),
        (build_ro, "sl:u16", u16, Sl), (build_ro, "sl:?bool", Ob<bool>, Sl), (build_ro, "sl:?[?u8]", Ob<Vec<Ob<u8>>>, Sl), (build_ro, "sl:?(?u16*2)", Ob<[Ob<u16>; 2]>, Sl),
        (build_ro, "a3:u32", u32, ArrayBuffer<3>), (build_ro, "a2:?bool", Ob<bool>, ArrayBuffer<2>), (build_ro, "a3:[u8]", Vec<u8>, ArrayBuffer<3>), (build_ro, "a4:?(u8*2)", Ob<[u8; 2]>, ArrayBuffer<4>),
        (build_ro, "a2:?[?u8]", Ob<Vec<Ob<u8>>>, ArrayBuffer<2>), (build_rw, "u8*9", [u8; 9], VecBuffer), (build_rw, "u8*100", [u8; 100], VecBuffer), (build_rw, "u16*4", [u16; 4], VecBuffer), (build_rw, "[?u8*4]", Vec<[Ob<u8>; 4]>, VecBuffer), (build_rw, "?(i8*19)", Ob<[i8; 19]>, VecBuffer),
        (build_ro, "u8*0", [u8; 0], VecBuffer), (build_ro, "?(?i32*0)", Ob<[Ob<i32>; 0]>, VecBuffer),
    }
    large {
        (build_rw, "large:u8", u8, NonNullable, VecBuffer), (build_rw, "large:?u16", Ob<u16>, Nullable, VecBuffer), (build_rw, "large:[?bool]", Vec<Ob<bool>>, Nullable, VecBuffer),
        (build_rw, "large:?(?u8*2)", Ob<[Ob<u8>; 2]>, NonNullable, VecBuffer), (build_ro, "arc:large:?u16", Ob<u16>, Nullable, ArcBuffer), (build_ro, "sl:large:bool", bool, NonNullable, Sl),
    }
}

fn main() {
    vh::supervise::main(run_one, list);
}
