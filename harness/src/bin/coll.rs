//! Collection subjects.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::json::J;
use vh::phys::Phys;
use std::rc::Rc;
use std::sync::Arc;
use vh::extra::Std;
use vh::run::{ro_clone, ro_rows, run_box, run_collect, run_ro, run_rw, rw_clone, rw_eq, rw_rows};
use vh::tracked::{TBuf, TVec};
use vh::units::{Count, Units};

type Ob<T> = Option<T>;

macro_rules! subjects {
    ($(($kind:ident, $name:literal, $t:ty)),* $(,)?) => {
        fn run_one(j: &J) -> String {
            match j.get("sub").str() {
                $($name => $kind::<$t>(j),)*
                s => panic!("script: unknown subject {s}"),
            }
        }
        fn list() -> String {
            let mut o = String::from("[");
            $(
                if o.len() > 1 { o.push(','); }
                o.push_str("{\"sub\":\"");
                o.push_str($name);
                o.push_str("\",\"kind\":\"");
                o.push_str(stringify!($kind));
                o.push_str("\",\"L\":");
                <$t as Phys>::layout(&mut o);
                o.push('}');
            )*
            o.push(']');
            o
        }
    };
}

type Zst = FixedSizeArray<u16, 0>;
type Runs<O> = Offsets<Count, O, VecBuffer, Count>;
type F3 = FixedSizeArray<u16, 3>;
type Sl = SliceBuffer<'static>;

subjects! {
    // primitives
    (run_rw, "u8", Array<u8>), (run_rw, "i8", Array<i8>), (run_rw, "u16", Array<u16>), (run_rw, "i16", Array<i16>),
    (run_rw, "u32", Array<u32>), (run_rw, "i32", Array<i32>), (run_rw, "u64", Array<u64>), (run_rw, "i64", Array<i64>),
    (run_rw, "u128", Array<u128>), (run_rw, "i128", Array<i128>), (run_rw, "usize", Array<usize>), (run_rw, "isize", Array<isize>),
    (run_rw, "f32", Array<f32>), (run_rw, "f64", Array<f64>), (run_rw, "fsa3", Array<F3>),
    (run_rw, "?u8", Array<Ob<u8>>), (run_rw, "?u128", Array<Ob<u128>>), (run_rw, "?f32", Array<Ob<f32>>), (run_rw, "?f64", Array<Ob<f64>>), (run_rw, "?fsa3", Array<Ob<F3>>),
    (run_rw, "bool", Array<bool>), (run_rw, "?bool", Array<Ob<bool>>),
    // lists
    (rw_eq, "[u8]", Array<Vec<u8>>), (rw_rows, "[f64]", Array<Vec<f64>>), (rw_eq, "[bool]", Array<Vec<bool>>), (rw_eq, "[?u16]", Array<Vec<Ob<u16>>>),
    (rw_eq, "?[u8]", Array<Ob<Vec<u8>>>), (rw_eq, "?[?bool]", Array<Ob<Vec<Ob<bool>>>>),
    (rw_rows, "[[u8]]", Array<Vec<Vec<u8>>>), (rw_rows, "[?[?u16]]", Array<Vec<Ob<Vec<Ob<u16>>>>>),
    // fixed-size lists
    (run_rw, "u8*2", Array<[u8; 2]>), (run_rw, "bool*3", Array<[bool; 3]>), (run_rw, "?u8*2", Array<[Ob<u8>; 2]>),
    (run_rw, "?(bool*3)", Array<Ob<[bool; 3]>>), (run_rw, "?(u8*2)", Array<Ob<[u8; 2]>>), (run_rw, "bool*3*2", Array<[[bool; 3]; 2]>),
    (run_rw, "?(?bool*2)", Array<Ob<[Ob<bool>; 2]>>), (run_rw, "u16*1", Array<[u16; 1]>),
    // mixed nesting
    (rw_rows, "[bool*3]", Array<Vec<[bool; 3]>>), (run_rw, "[u8]*2", Array<[Vec<u8>; 2]>),
    (run_rw, "?([?bool]*2)", Array<Ob<[Vec<Ob<bool>>; 2]>>), (rw_rows, "[?(u16*2)]", Array<Vec<Ob<[u16; 2]>>>),
    // raw collections and 64-bit offsets
    (rw_clone, "bitmap", Bitmap<VecBuffer>), (run_rw, "val(u32)", Validity<Vec<u32>, VecBuffer>), (run_rw, "val(bitmap)", Validity<Bitmap<VecBuffer>, VecBuffer>),
    (run_rw, "val(val(u32))", Validity<Validity<Vec<u32>, VecBuffer>, VecBuffer>),
    (rw_clone, "flat3(bitmap)", Flatten<Bitmap<VecBuffer>, 3>), (run_rw, "flat2(val(bitmap))", Flatten<Validity<Bitmap<VecBuffer>, VecBuffer>, 2>),
    (rw_eq, "off64(u8)", Offsets<Vec<u8>, i64, VecBuffer>), (rw_eq, "off64(bitmap)", Offsets<Bitmap<VecBuffer>, i64, VecBuffer>),
    (rw_eq, "list64(?u8)", VariableSizeList<Ob<u8>, NonNullable, i64, VecBuffer>), (rw_eq, "?list64(bool)", VariableSizeList<bool, Nullable, i64, VecBuffer>),
    (rw_eq, "val(off64(u8))", Validity<Offsets<Vec<u8>, i64, VecBuffer>, VecBuffer>),
    (rw_clone, "vec(u8)", Vec<u8>), (run_rw, "off32(zst)", Offsets<Vec<Zst>, i32, VecBuffer>), (run_rw, "off64(zst)", Offsets<Vec<Zst>, i64, VecBuffer>),
    // caller-supplied storage
    (run_rw, "t:vec(u8)", TVec<u8>), (run_rw, "t:u8", Array<u8, TBuf>), (run_rw, "t:f64", Array<f64, TBuf>), (run_rw, "t:?u16", Array<Ob<u16>, TBuf>), (run_rw, "t:bool", Array<bool, TBuf>), (run_rw, "t:?bool", Array<Ob<bool>, TBuf>),
    (rw_eq, "t:[u8]", Array<Vec<u8>, TBuf>), (rw_eq, "t:[bool]", Array<Vec<bool>, TBuf>), (rw_eq, "t:[?u16]", Array<Vec<Ob<u16>>, TBuf>), (rw_eq, "t:?[u8]", Array<Ob<Vec<u8>>, TBuf>),
    (rw_eq, "t:?[?bool]", Array<Ob<Vec<Ob<bool>>>, TBuf>), (rw_rows, "t:[[u8]]", Array<Vec<Vec<u8>>, TBuf>), (rw_rows, "t:[?[?u16]]", Array<Vec<Ob<Vec<Ob<u16>>>>, TBuf>),
    (run_rw, "t:u8*2", Array<[u8; 2], TBuf>), (run_rw, "t:u8*11", Array<[u8; 11], TBuf>), (run_rw, "t:bool*3", Array<[bool; 3], TBuf>), (run_rw, "t:?u8*2", Array<[Ob<u8>; 2], TBuf>),
    (run_rw, "t:?(bool*3)", Array<Ob<[bool; 3]>, TBuf>), (run_rw, "t:?(u8*2)", Array<Ob<[u8; 2]>, TBuf>), (run_rw, "t:?(?bool*2)", Array<Ob<[Ob<bool>; 2]>, TBuf>),
    (run_rw, "t:bool*3*2", Array<[[bool; 3]; 2], TBuf>),
    (rw_rows, "t:[bool*3]", Array<Vec<[bool; 3]>, TBuf>), (run_rw, "t:[u8]*2", Array<[Vec<u8>; 2], TBuf>),
    (run_rw, "t:?([?bool]*2)", Array<Ob<[Vec<Ob<bool>>; 2]>, TBuf>), (rw_rows, "t:[?(u16*2)]", Array<Vec<Ob<[u16; 2]>>, TBuf>),
    (run_rw, "t:bitmap", Bitmap<TBuf>), (run_rw, "t:val(u32)", Validity<TVec<u32>, TBuf>), (run_rw, "t:val(val(u32))", Validity<Validity<TVec<u32>, TBuf>, TBuf>),
    (rw_eq, "t:off64(u8)", Offsets<TVec<u8>, i64, TBuf>), (run_rw, "t:flat3(bitmap)", Flatten<Bitmap<TBuf>, 3>),
    (rw_eq, "t:list64(?u8)", VariableSizeList<Ob<u8>, NonNullable, i64, TBuf>),
    (run_ro, "flat0(vec)", Flatten<Vec<u8>, 0>),
    // lists whose rows are owned as other collections
    (run_rw, "off32(u8)@box", Offsets<Vec<u8>, i32, VecBuffer, Box<[u8]>>), (run_rw, "off64(?f64)@array", Offsets<Array<Ob<f64>>, i64, VecBuffer, Array<Ob<f64>>>),
    (run_rw, "off32(bitmap)@bitmap", Offsets<Bitmap, i32, VecBuffer, Bitmap>), (run_rw, "?off32(val(u16))@val", Validity<Offsets<Validity<Vec<u16>>, i32, VecBuffer, Validity<Vec<u16>>>>),
    (run_rw, "off64(off32(bitmap))@off64", Offsets<Offsets<Bitmap>, i64, VecBuffer, Offsets<Bitmap, i64>>), (run_rw, "off32([?bool]*2)@flat", Offsets<Array<[Vec<Ob<bool>>; 2]>, i32, VecBuffer, Flatten<Array<Vec<Ob<bool>>>, 2>>),
    (run_rw, "flat2(off32(bool)@array)", Flatten<Offsets<Array<bool>, i32, VecBuffer, Array<bool>>, 2>),
    // standard collections of arbitrary items
    (rw_clone, "std:vec([u8])", Std<Vec<Vec<u8>>>), (rw_clone, "std:vec(bool)", Std<Vec<bool>>), (rw_clone, "std:vec(u16*2)", Std<Vec<[u16; 2]>>),
    (rw_clone, "std:vec([?bool])", Std<Vec<Vec<Ob<bool>>>>), (rw_clone, "std:vec([bool]*2)", Std<Vec<[Vec<bool>; 2]>>), (rw_clone, "std:vec([[u8]])", Std<Vec<Vec<Vec<u8>>>>),
    (run_box, "std:box([u8])", Std<Box<[Vec<u8>]>>), (run_box, "std:box(bool)", Std<Box<[bool]>>), (run_box, "std:box(u16*2)", Std<Box<[[u16; 2]]>>),
    (run_collect, "std:rc([u8])", Std<Rc<[Vec<u8>]>>), (run_collect, "std:rc(bool)", Std<Rc<[bool]>>), (run_collect, "std:arc([?bool])", Std<Arc<[Vec<Ob<bool>>]>>), (run_collect, "std:arc(u16*2)", Std<Arc<[[u16; 2]]>>),
    (ro_clone, "std:sl([u8])", Std<&'static [Vec<u8>]>), (ro_clone, "std:sl(bool)", Std<&'static [bool]>), (ro_clone, "std:sl([bool]*2)", Std<&'static [[Vec<bool>; 2]]>),
    (ro_clone, "std:a3([u8])", Std<[Vec<u8>; 3]>), (ro_clone, "std:a0(bool)", Std<[bool; 0]>), (ro_clone, "std:a9(u16*2)", Std<[[u16; 2]; 9]>),
    // rows of elements without memory: as many as offsets can count
    (run_rw, "units:off32", Units<Runs<i32>>), (run_rw, "units:off64", Units<Runs<i64>>), (run_rw, "units:?off32", Units<Validity<Runs<i32>, VecBuffer>>),
    (run_rw, "units:[off32]", Units<Offsets<Runs<i32>, i32, VecBuffer, Vec<Count>>>), (run_rw, "units:[off64]", Units<Offsets<Runs<i64>, i32, VecBuffer, Vec<Count>>>),
    (run_rw, "units:off32*2", Units<Flatten<Runs<i32>, 2>>), (run_rw, "units:?(off32*2)", Units<Validity<Flatten<Runs<i32>, 2>, VecBuffer>>),
    // boxed storage
    (run_box, "box:u8", Array<u8, BoxBuffer>), (run_box, "box:f64", Array<f64, BoxBuffer>), (run_box, "box:bool", Array<bool, BoxBuffer>), (run_box, "box:bitmap", Bitmap<BoxBuffer>),
    (run_box, "box:bool*3", Array<[bool; 3], BoxBuffer>), (run_box, "box:u8*2", Array<[u8; 2], BoxBuffer>),
    (run_ro, "box:?u8", Array<Ob<u8>, BoxBuffer>), (run_ro, "box:?bool", Array<Ob<bool>, BoxBuffer>), (ro_rows, "box:[u8]", Array<Vec<u8>, BoxBuffer>),
    (run_ro, "box:?[?bool]", Array<Ob<Vec<Ob<bool>>>, BoxBuffer>), (run_ro, "box:?(bool*3)", Array<Ob<[bool; 3]>, BoxBuffer>), (run_ro, "box:[?(u16*2)]", Array<Vec<Ob<[u16; 2]>>, BoxBuffer>),
    (run_ro, "box:?u8*2", Array<[Ob<u8>; 2], BoxBuffer>), (run_ro, "box:[?[?u16]]", Array<Vec<Ob<Vec<Ob<u16>>>>, BoxBuffer>),
    // shared storage
    (run_collect, "rc:u8", Array<u8, RcBuffer>), (run_collect, "arc:u8", Array<u8, ArcBuffer>), (run_collect, "rc:f64", Array<f64, RcBuffer>), (run_collect, "arc:f64", Array<f64, ArcBuffer>),
    (run_ro, "rc:bool", Array<bool, RcBuffer>), (ro_clone, "rc:bitmap", Bitmap<RcBuffer>), (run_ro, "rc:?u8", Array<Ob<u8>, RcBuffer>), (run_ro, "rc:?bool", Array<Ob<bool>, RcBuffer>),
    (ro_rows, "rc:[u8]", Array<Vec<u8>, RcBuffer>), (ro_rows, "rc:?[?bool]", Array<Ob<Vec<Ob<bool>>>, RcBuffer>), (run_ro, "rc:?(bool*3)", Array<Ob<[bool; 3]>, RcBuffer>), (run_ro, "rc:[?[?u16]]", Array<Vec<Ob<Vec<Ob<u16>>>>, RcBuffer>),
    (run_ro, "arc:bool", Array<bool, ArcBuffer>), (ro_clone, "arc:bitmap", Bitmap<ArcBuffer>), (run_ro, "arc:?u8", Array<Ob<u8>, ArcBuffer>), (run_ro, "arc:?bool", Array<Ob<bool>, ArcBuffer>),
    (ro_rows, "arc:[u8]", Array<Vec<u8>, ArcBuffer>), (run_ro, "arc:?[?bool]", Array<Ob<Vec<Ob<bool>>>, ArcBuffer>), (run_ro, "arc:u8*2", Array<[u8; 2], ArcBuffer>), (run_ro, "arc:[?(u16*2)]", Array<Vec<Ob<[u16; 2]>>, ArcBuffer>),
    // borrowed storage
    (run_ro, "sl:u8", Array<u8, Sl>), (run_ro, "sl:f64", Array<f64, Sl>), (run_ro, "sl:bool", Array<bool, Sl>), (ro_clone, "sl:bitmap", Bitmap<Sl>), (run_ro, "sl:?u8", Array<Ob<u8>, Sl>), (run_ro, "sl:?bool", Array<Ob<bool>, Sl>),
    (ro_rows, "sl:[u8]", Array<Vec<u8>, Sl>), (ro_rows, "sl:?[?bool]", Array<Ob<Vec<Ob<bool>>>, Sl>), (run_ro, "sl:?(bool*3)", Array<Ob<[bool; 3]>, Sl>), (run_ro, "sl:[?(u16*2)]", Array<Vec<Ob<[u16; 2]>>, Sl>),
    (run_ro, "sl:u8*2", Array<[u8; 2], Sl>), (run_ro, "sl:[?[?u16]]", Array<Vec<Ob<Vec<Ob<u16>>>>, Sl>), (ro_rows, "sl:list64(?u8)", VariableSizeList<Ob<u8>, NonNullable, i64, Sl>),
    // fixed-array storage (every buffer has exactly this many elements)
    (run_ro, "a1:bitmap", Bitmap<ArrayBuffer<1>>), (ro_clone, "a2:bitmap", Bitmap<ArrayBuffer<2>>), (run_ro, "a3:u8", Array<u8, ArrayBuffer<3>>), (run_ro, "a2:bool", Array<bool, ArrayBuffer<2>>),
    (run_ro, "a2:?u8", Array<Ob<u8>, ArrayBuffer<2>>), (run_ro, "a2:?bool", Array<Ob<bool>, ArrayBuffer<2>>), (ro_rows, "a3:[u8]", Array<Vec<u8>, ArrayBuffer<3>>), (ro_rows, "a2:?[bool]", Array<Ob<Vec<bool>>, ArrayBuffer<2>>),
    (run_ro, "a4:u8*2", Array<[u8; 2], ArrayBuffer<4>>), (run_ro, "a2:?(bool*3)", Array<Ob<[bool; 3]>, ArrayBuffer<2>>),
}

fn main() {
    vh::supervise::main(run_one, list);
}
