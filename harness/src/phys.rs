//! Physical representations: dumping them through the public buffer
//! accessors and constructing collections from them through raw parts.
use crate::json::{J, from_code, num};
use crate::tracked::{TBuf, TVec};
use crate::val::{Dec, Enc, enc_seq};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, BitmapError, ValidityBitmap};
use narrow::buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::flatten::{Flatten, FlattenError};
use narrow::collection::{ChildRef, Collection};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::{NonNullable, Nullability, Nullable};
use narrow::offset::{Offset, Offsets, OffsetsError};
use narrow::validity::{Validity, ValidityError};
use std::borrow::Borrow;
use std::fmt::Write;
use std::rc::Rc;
use std::sync::Arc;

/// Storage kinds the harness can fill.
pub trait Store: Buffer + 'static {
    /// Buffers live inside the collection itself.
    const INLINE: bool = false;
    /// Buffers belong to somebody else.
    const BORROWED: bool = false;
    fn mk<T: FixedSize>(v: Vec<T>, alloc: u32) -> Option<Self::For<T>>;
    /// Allocator of a buffer, if it has one.
    fn aid<T: FixedSize>(_: &Self::For<T>) -> Option<u32> {
        None
    }
}
impl Store for VecBuffer {
    fn mk<T: FixedSize>(v: Vec<T>, _: u32) -> Option<Vec<T>> {
        Some(v)
    }
}
impl Store for BoxBuffer {
    fn mk<T: FixedSize>(v: Vec<T>, _: u32) -> Option<Box<[T]>> {
        Some(v.into())
    }
}
impl Store for RcBuffer {
    fn mk<T: FixedSize>(v: Vec<T>, _: u32) -> Option<Rc<[T]>> {
        let r: Rc<[T]> = v.into();
        place::made(&r);
        place::keep(r.clone());
        Some(r)
    }
}
impl Store for ArcBuffer {
    fn mk<T: FixedSize>(v: Vec<T>, _: u32) -> Option<Arc<[T]>> {
        let r: Arc<[T]> = v.into();
        place::made(&r);
        place::keep(r.clone());
        Some(r)
    }
}
impl Store for SliceBuffer<'static> {
    const BORROWED: bool = true;
    fn mk<T: FixedSize>(v: Vec<T>, _: u32) -> Option<&'static [T]> {
        let s: &'static [T] = Box::leak(v.into_boxed_slice());
        place::made(s);
        Some(s)
    }
}

/// Shared and borrowed storage handed to the code under test: where it is and
/// which bytes it had, so that copies and writes are noticed.
pub mod place {
    use std::any::Any;
    use std::cell::RefCell;
    #[derive(Default)]
    struct S {
        made: Vec<(usize, Vec<u8>)>,
        seen: Vec<(usize, usize)>,
        kept: Vec<Box<dyn Any>>,
    }
    thread_local! {
        static S: RefCell<S> = RefCell::default();
        static SOLE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    /// Shared storage has no second owner from now on.
    pub fn sole_owner() {
        SOLE.with(|s| s.set(true));
    }
    /// Forgets the storages but remembers nothing was wrong with them.
    pub fn forget() {
        S.with(|x| x.borrow_mut().made = Vec::new());
    }
    fn bytes<T>(s: &[T]) -> &[u8] {
        unsafe { std::slice::from_raw_parts(s.as_ptr().cast(), size_of_val(s)) }
    }
    pub fn reset() {
        S.with(|x| *x.borrow_mut() = S::default());
    }
    pub fn made<T>(s: &[T]) {
        S.with(|x| x.borrow_mut().made.push((s.as_ptr() as usize, bytes(s).to_vec())));
    }
    /// A second owner, as shared storage has.
    pub fn keep<T: 'static>(r: T) {
        if SOLE.with(std::cell::Cell::get) {
            return;
        }
        S.with(|x| x.borrow_mut().kept.push(Box::new(r)));
    }
    pub fn seen<T>(s: &[T]) {
        S.with(|x| x.borrow_mut().seen.push((s.as_ptr() as usize, size_of_val(s))));
    }
    /// The buffers reported by dumps since the last call.
    pub fn take_seen() -> Vec<(usize, usize)> {
        S.with(|x| std::mem::take(&mut x.borrow_mut().seen))
    }
    /// Memory expected to be read in place from now on.
    pub fn expect_at(p: *const u8, n: usize) {
        S.with(|x| {
            let b = if n == 0 { Vec::new() } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() };
            x.borrow_mut().made.push((p as usize, b));
        });
    }
    /// Every buffer reported by the last dump is one of the storages handed
    /// over, whose bytes are what they were.
    pub fn inplace() -> Option<bool> {
        S.with(|x| {
            let x = &mut *x.borrow_mut();
            let seen = std::mem::take(&mut x.seen);
            if x.made.is_empty() {
                return None;
            }
            let there = seen.iter().all(|(p, n)| *n == 0 || x.made.iter().any(|(q, b)| p == q && *n <= b.len()));
            let same = x.made.iter().all(|(q, b)| unsafe { std::slice::from_raw_parts(*q as *const u8, b.len()) } == &b[..]);
            Some(there && same)
        })
    }
}
impl<const N: usize> Store for ArrayBuffer<N> {
    const INLINE: bool = true;
    fn mk<T: FixedSize>(v: Vec<T>, _: u32) -> Option<[T; N]> {
        v.try_into().ok()
    }
}
impl Store for TBuf {
    fn mk<T: FixedSize>(v: Vec<T>, id: u32) -> Option<TVec<T>> {
        let cap = v.len();
        Some(TVec { v, cap, id })
    }
    fn aid<T: FixedSize>(b: &TVec<T>) -> Option<u32> {
        Some(b.id)
    }
}

/// Why raw parts were refused (as the specification names it).
pub enum Refused {
    /// The storage cannot hold these parts (harness limitation, not a verdict).
    Unsupported,
    /// Error reported by the library: kind and its numeric fields.
    Error(&'static str, Vec<usize>),
}

pub trait Phys: Collection + Sized {
    fn layout(o: &mut String);
    fn dump(&self, o: &mut String);
    fn allocs(&self, o: &mut Vec<u32>);
    fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused>;
    /// Takes the collection apart and puts it together again through the
    /// public raw-parts API; the parts must be accepted.
    fn reassemble(self) -> Result<Self, Refused>;
    /// Whether this is a nullable collection.
    const NULLABLE: bool = false;
    /// The offset-carrying or nested bitmaps' bit offsets, outermost first.
    fn bit_offsets(&self, o: &mut Vec<usize>);
}

macro_rules! prim_phys {
    ($([$($g:tt)*] $c:ty, $s:ty;)*) => {$(
        impl<$($g)*> Phys for $c {
            fn layout(o: &mut String) { let _ = write!(o, "{{\"k\":\"prim\",\"f\":\"{}\",\"al\":{}}}", format_of::<T>(), align_of::<T>()); }
            fn dump(&self, o: &mut String) {
                o.push_str("{\"v\":");
                let s: &[T] = self.borrow();
                place::seen(s);
                enc_seq(s.iter(), o);
                o.push('}');
            }
            fn allocs(&self, o: &mut Vec<u32>) { o.extend(<$s as Store>::aid::<T>(self)); }
            fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused> {
                <$s as Store>::mk(j.get("v").arr().iter().map(T::dec).collect(), alloc).ok_or(Refused::Unsupported)
            }
            fn reassemble(self) -> Result<Self, Refused> { Ok(self) }
            fn bit_offsets(&self, _: &mut Vec<usize>) {}
        }
    )*};
}
prim_phys! {
    [T: FixedSize + Enc + Dec] Vec<T>, VecBuffer;
    [T: FixedSize + Enc + Dec] Box<[T]>, BoxBuffer;
    [T: FixedSize + Enc + Dec] Rc<[T]>, RcBuffer;
    [T: FixedSize + Enc + Dec] Arc<[T]>, ArcBuffer;
    [T: FixedSize + Enc + Dec] &'static [T], SliceBuffer<'static>;
    [T: FixedSize + Enc + Dec, const N: usize] [T; N], ArrayBuffer<N>;
    [T: FixedSize + Enc + Dec] TVec<T>, TBuf;
}

/// Arrow C format of a primitive type, as the Arrow specification has it.
fn format_of<T>() -> &'static str {
    match std::any::type_name::<T>() {
        "i8" => "c",
        "u8" => "C",
        "i16" => "s",
        "u16" => "S",
        "i32" => "i",
        "u32" => "I",
        "i64" => "l",
        "u64" => "L",
        "f32" => "f",
        "f64" => "g",
        _ => "?",
    }
}

fn bytes_of(j: &J) -> Vec<u8> {
    j.arr().iter().map(|b| u8::try_from(b.num()).expect("byte")).collect()
}

impl<S: Store> Phys for Bitmap<S> {
    fn layout(o: &mut String) {
        o.push_str("{\"k\":\"bool\"}");
    }
    fn dump(&self, o: &mut String) {
        o.push_str("{\"by\":[");
        let by: &[u8] = self.buffer_ref().borrow();
        place::seen(by);
        for (i, b) in by.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{b}");
        }
        o.push_str("],\"len\":");
        num(self.len(), o);
        o.push_str(",\"off\":");
        num(self.bit_offset(), o);
        o.push('}');
    }
    fn allocs(&self, o: &mut Vec<u32>) {
        o.extend(S::aid::<u8>(self.buffer_ref()));
    }
    fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused> {
        let buf = S::mk(bytes_of(j.get("by")), alloc).ok_or(Refused::Unsupported)?;
        Self::try_from_parts(buf, j.get("len").size(), j.get("off").size()).map_err(|e| match e {
            BitmapError::OutOfBounds { offset, bits, bytes } => {
                Refused::Error("BitmapOutOfBounds", vec![offset, bits, bytes])
            }
        })
    }
    fn reassemble(self) -> Result<Self, Refused> {
        let (b, n, o) = self.into_parts();
        Self::try_from_parts(b, n, o).map_err(|_| Refused::Error("reassemble", vec![]))
    }
    fn bit_offsets(&self, o: &mut Vec<usize>) {
        o.push(self.bit_offset());
    }
}

/// Offset values from script numbers.
pub trait OffVal: Offset {
    const NAME: &'static str;
    fn of(n: i64) -> Self;
}
impl OffVal for i32 {
    const NAME: &'static str = "32";
    fn of(n: i64) -> Self {
        i32::try_from(from_code(n)).expect("offset")
    }
}
impl OffVal for i64 {
    const NAME: &'static str = "64";
    fn of(n: i64) -> Self {
        from_code(n)
    }
}

impl<T: Phys, O: OffVal, S: Store, U: FromIterator<T::Owned>> Phys for Offsets<T, O, S, U> {
    fn layout(o: &mut String) {
        let _ = write!(o, "{{\"k\":\"list\",\"w\":\"{}\",\"c\":", O::NAME);
        T::layout(o);
        o.push('}');
    }
    fn dump(&self, o: &mut String) {
        o.push_str("{\"o\":[");
        let offs: &[O] = self.buffer_ref().borrow();
        place::seen(offs);
        for (i, x) in offs.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match TryInto::<usize>::try_into(*x) {
                Ok(n) => num(n, o),
                Err(_) => o.push_str("-2"),
            }
        }
        o.push_str("],\"c\":");
        self.child_ref().dump(o);
        o.push('}');
    }
    fn allocs(&self, o: &mut Vec<u32>) {
        o.extend(S::aid::<O>(self.buffer_ref()));
        self.child_ref().allocs(o);
    }
    fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused> {
        let c = T::from_phys(j.get("c"), alloc)?;
        let offs = S::mk(j.get("o").arr().iter().map(|x| O::of(x.num())).collect(), alloc).ok_or(Refused::Unsupported)?;
        Self::try_from_parts(c, offs).map_err(offsets_error)
    }
    fn reassemble(self) -> Result<Self, Refused> {
        let (c, o) = self.into_parts();
        Self::try_from_parts(c.reassemble()?, o).map_err(|_| Refused::Error("reassemble", vec![]))
    }
    fn bit_offsets(&self, o: &mut Vec<usize>) {
        self.child_ref().bit_offsets(o);
    }
}
pub fn offsets_error(e: OffsetsError) -> Refused {
    match e {
        OffsetsError::Empty => Refused::Error("OffsetsEmpty", vec![]),
        OffsetsError::NonZeroFirst { first } => Refused::Error("OffsetsNonZeroFirst", vec![first]),
        OffsetsError::Negative { index } => Refused::Error("OffsetsNegative", vec![index]),
        OffsetsError::NonMonotonic { index } => Refused::Error("OffsetsNonMonotonic", vec![index]),
        OffsetsError::OutOfBounds { last, data } => Refused::Error("OffsetsOutOfBounds", vec![last, data]),
    }
}

impl<T: Phys, const N: usize> Phys for Flatten<T, N> {
    fn layout(o: &mut String) {
        let _ = write!(o, "{{\"k\":\"fsl\",\"n\":{N},\"c\":");
        T::layout(o);
        o.push('}');
    }
    fn dump(&self, o: &mut String) {
        o.push_str("{\"c\":");
        self.child_ref().dump(o);
        o.push('}');
    }
    fn allocs(&self, o: &mut Vec<u32>) {
        self.child_ref().allocs(o);
    }
    fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused> {
        Self::try_from_parts(T::from_phys(j.get("c"), alloc)?).map_err(|e| match e {
            FlattenError::ZeroChunkSize => Refused::Error("FlattenZeroChunkSize", vec![]),
            FlattenError::NotMultiple { len, n } => Refused::Error("FlattenNotMultiple", vec![len, n]),
        })
    }
    fn reassemble(self) -> Result<Self, Refused> {
        Self::try_from_parts(self.into_parts().reassemble()?).map_err(|_| Refused::Error("reassemble", vec![]))
    }
    fn bit_offsets(&self, o: &mut Vec<usize>) {
        self.child_ref().bit_offsets(o);
    }
}

impl<T: Phys, S: Store> Phys for Validity<T, S> {
    const NULLABLE: bool = true;
    fn layout(o: &mut String) {
        o.push_str("{\"k\":\"null\",\"c\":");
        T::layout(o);
        o.push('}');
    }
    fn dump(&self, o: &mut String) {
        o.push_str("{\"bm\":[");
        if let Some(b) = self.bitmap_ref() {
            b.dump(o);
        }
        o.push_str("],\"c\":");
        self.child_ref().dump(o);
        let _ = write!(
            o,
            ",\"q\":{{\"nc\":{},\"vc\":{},\"anyn\":{},\"alln\":{},\"anyv\":{},\"allv\":{},\"iv\":[",
            self.null_count(),
            self.valid_count(),
            self.any_null(),
            self.all_null(),
            self.any_valid(),
            self.all_valid(),
        );
        let n = self.len();
        for i in 0..n {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, self.is_valid(i).map_or(2, u8::from));
        }
        o.push_str("],\"in\":[");
        for i in 0..n {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, self.is_null(i).map_or(2, u8::from));
        }
        let oob = [n, n + 1, n + 7, n + 8, n + 64, usize::MAX, usize::MAX - 1, usize::MAX - n, usize::MAX / 2];
        let none = oob.iter().all(|i| self.is_valid(*i).is_none() && self.is_null(*i).is_none());
        let _ = write!(o, "],\"oob\":{}}}}}", none);
    }
    fn allocs(&self, o: &mut Vec<u32>) {
        if let Some(b) = self.bitmap_ref() {
            b.allocs(o);
        }
        self.child_ref().allocs(o);
    }
    fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused> {
        let c = T::from_phys(j.get("c"), alloc)?;
        match j.get("bm").arr().first() {
            None => Ok(Self::from_collection(c)),
            Some(b) => Self::try_from_parts(c, Bitmap::from_phys(b, alloc)?).map_err(|e| match e {
                ValidityError::LengthMismatch { collection, bitmap } => {
                    Refused::Error("ValidityLengthMismatch", vec![collection, bitmap])
                }
            }),
        }
    }
    fn reassemble(self) -> Result<Self, Refused> {
        let (c, b) = self.into_parts();
        let c = c.reassemble()?;
        match b {
            None => Ok(Self::from_collection(c)),
            Some(b) => Self::try_from_parts(c, b.reassemble()?).map_err(|_| Refused::Error("reassemble", vec![])),
        }
    }
    fn bit_offsets(&self, o: &mut Vec<usize>) {
        if let Some(b) = self.bitmap_ref() {
            o.push(b.bit_offset());
        }
        self.child_ref().bit_offsets(o);
    }
}

macro_rules! layout_phys {
    ($([$($g:tt)*] $c:ty, $b:ty, $t:ident;)*) => {$(
        impl<$($g)*> Phys for $c where $b: Phys {
            const NULLABLE: bool = <$b as Phys>::NULLABLE;
            fn layout(o: &mut String) { <$b as Phys>::layout(o) }
            fn dump(&self, o: &mut String) { self.buffer_ref().dump(o) }
            fn allocs(&self, o: &mut Vec<u32>) { self.buffer_ref().allocs(o) }
            fn from_phys(j: &J, alloc: u32) -> Result<Self, Refused> {
                <$b as Phys>::from_phys(j, alloc).map($t::from_buffer)
            }
            fn reassemble(self) -> Result<Self, Refused> { self.into_buffer().reassemble().map($t::from_buffer) }
            fn bit_offsets(&self, o: &mut Vec<usize>) { self.buffer_ref().bit_offsets(o) }
        }
    )*};
}
layout_phys! {
    [T: FixedSize, S: Store] FixedSizePrimitive<T, NonNullable, S>, S::For<T>, FixedSizePrimitive;
    [T: FixedSize, S: Store] FixedSizePrimitive<T, Nullable, S>, Validity<S::For<T>, S>, FixedSizePrimitive;
    [Nu: Nullability, S: Store] Boolean<Nu, S>, Nu::Collection<Bitmap<S>, S>, Boolean;
    [T: ArrayItem, const N: usize, Nu: Nullability, S: Store] FixedSizeList<T, N, Nu, S>,
        Nu::Collection<Flatten<T::Memory<S>, N>, S>, FixedSizeList;
    [T: ArrayItem, Nu: Nullability, O: OffVal, S: Store] VariableSizeList<T, Nu, O, S>,
        Nu::Collection<Offsets<T::Memory<S>, O, S>, S>, VariableSizeList;
    [T: ArrayItem, S: Store] Array<T, S>, T::Memory<S>, Array;
}
