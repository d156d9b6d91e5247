//! Items: mapping between the specification's values and concrete Rust values.
//!
//! A primitive item is named by a small number k; `of_k` gives the concrete
//! bit pattern.  Encoding is exact: a value whose bits are not `of_k(k)` for
//! some k is printed as "?<bits>", which no specification value equals.
use crate::json::J;
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::collection::Collection;
use narrow::collection::flatten::{Flatten, FlattenView};
use narrow::fixed_size::{FixedSize, FixedSizeArray};
use narrow::layout::ArrayItem;
use narrow::offset::{Offset, OffsetView, Offsets};
use narrow::validity::Validity;
use narrow::buffer::Buffer;
use std::fmt::Write;

/// A value that can be printed as a specification item.
pub trait Enc {
    fn enc(&self, o: &mut String);
}

/// A value that can be built from a specification item.
pub trait Dec: Sized {
    fn dec(j: &J) -> Self;
}

/// Fixed-size values.
pub trait Prim: FixedSize + Default {
    fn of_k(k: u32) -> Self;
    fn raw(&self) -> u128;
    fn guess(&self) -> Vec<u32>;
}

fn enc_prim<T: Prim>(v: &T, o: &mut String) {
    for k in v.guess() {
        if T::of_k(k).raw() == v.raw() {
            let _ = write!(o, "\"{k}\"");
            return;
        }
    }
    let _ = write!(o, "\"?{:x}\"", v.raw());
}

macro_rules! prim_int {
    ($($t:ty, $u:ty, $sp:expr;)*) => {$(
        impl Prim for $t {
            fn of_k(k: u32) -> Self {
                let sp: &[$t] = &$sp;
                // 1..=3 are extreme values; others are themselves.
                match k { 1..=3 => sp[k as usize - 1], _ => k as $t }
            }
            fn raw(&self) -> u128 { *self as $u as u128 }
            fn guess(&self) -> Vec<u32> { vec![0, 1, 2, 3, (*self as $u as u128 & 0xffff_ffff) as u32] }
        }
    )*};
}
prim_int! {
    u8, u8, [u8::MAX, 0x80, 0x55];
    i8, u8, [i8::MIN, i8::MAX, -1];
    u16, u16, [u16::MAX, 0x8001, 0x0100];
    i16, u16, [i16::MIN, i16::MAX, -2];
    u32, u32, [u32::MAX, 0x8000_0001, 0x0102_0304];
    i32, u32, [i32::MIN, i32::MAX, -3];
    u64, u64, [u64::MAX, 1 << 63, 0x0102_0304_0506_0708];
    i64, u64, [i64::MIN, i64::MAX, -4];
    u128, u128, [u128::MAX, 1 << 127, 0x0102 << 64];
    i128, u128, [i128::MIN, i128::MAX, -5];
    usize, usize, [usize::MAX, 1 << 63, 77_000_000_000];
    isize, usize, [isize::MIN, isize::MAX, -6];
}
macro_rules! prim_float {
    ($($t:ty, $sp:expr;)*) => {$(
        impl Prim for $t {
            fn of_k(k: u32) -> Self {
                let sp = $sp;
                match k { 1..=7 => <$t>::from_bits(sp[k as usize - 1]), _ => k as $t }
            }
            fn raw(&self) -> u128 { u128::from(self.to_bits()) }
            fn guess(&self) -> Vec<u32> { (0..8).chain([*self as u32]).collect() }
        }
    )*};
}
prim_float! {
    f32, [(-0.0f32).to_bits(), 0x7fc0_0001, 0x7f80_0001, 0xffc1_2345, f32::INFINITY.to_bits(), 1, f32::MIN.to_bits()];
    f64, [(-0.0f64).to_bits(), 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 0xfff8_dead_beef_0001,
          f64::INFINITY.to_bits(), 1, f64::MIN.to_bits()];
}
impl<const N: usize> Prim for FixedSizeArray<u16, N>
where
    [u16; N]: Default,
{
    fn of_k(k: u32) -> Self {
        if k == 0 {
            return Self::default();
        }
        std::array::from_fn::<u16, N, _>(|i| (k as u16).wrapping_add((i as u16) << 8)).into()
    }
    fn raw(&self) -> u128 {
        self.iter().fold(0, |a, x| (a << 16) | u128::from(*x))
    }
    fn guess(&self) -> Vec<u32> {
        (0..300).collect()
    }
}

macro_rules! prim_enc {
    ($($t:ty),*) => {$(
        impl Enc for $t { fn enc(&self, o: &mut String) { enc_prim(self, o) } }
        impl Dec for $t { fn dec(j: &J) -> Self { <$t>::of_k(j.str().parse().expect("prim item")) } }
    )*};
}
prim_enc!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64);
impl<const N: usize> Enc for FixedSizeArray<u16, N>
where
    [u16; N]: Default,
{
    fn enc(&self, o: &mut String) {
        enc_prim(self, o)
    }
}
impl<const N: usize> Dec for FixedSizeArray<u16, N>
where
    [u16; N]: Default,
{
    fn dec(j: &J) -> Self {
        Self::of_k(j.str().parse().expect("prim item"))
    }
}

impl Enc for bool {
    fn enc(&self, o: &mut String) {
        o.push_str(if *self { "\"1\"" } else { "\"0\"" });
    }
}
impl Dec for bool {
    fn dec(j: &J) -> Self {
        j.str() == "1"
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self, o: &mut String) {
        match self {
            None => o.push_str("[]"),
            Some(x) => {
                o.push('[');
                x.enc(o);
                o.push(']');
            }
        }
    }
}
impl<T: Dec> Dec for Option<T> {
    fn dec(j: &J) -> Self {
        j.arr().first().map(T::dec)
    }
}

pub fn enc_seq<T: Enc, I: Iterator<Item = T>>(it: I, o: &mut String) {
    o.push('[');
    for (i, x) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.enc(o);
    }
    o.push(']');
}
impl<T: Enc> Enc for [T] {
    fn enc(&self, o: &mut String) {
        enc_seq(self.iter(), o);
    }
}
impl<T: Enc + ?Sized> Enc for &T {
    fn enc(&self, o: &mut String) {
        (**self).enc(o);
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self, o: &mut String) {
        enc_seq(self.iter(), o);
    }
}
impl<T: Dec> Dec for Vec<T> {
    fn dec(j: &J) -> Self {
        j.arr().iter().map(T::dec).collect()
    }
}
impl<T: Enc> Enc for Box<[T]> {
    fn enc(&self, o: &mut String) {
        enc_seq(self.iter(), o);
    }
}
impl<T: Dec> Dec for Box<[T]> {
    fn dec(j: &J) -> Self {
        Vec::dec(j).into()
    }
}

// Rows owned as collections of this crate.
macro_rules! owned_rows {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Enc for $t where for<'a> <$t as Collection>::View<'a>: Enc {
            fn enc(&self, o: &mut String) {
                enc_seq(self.iter_views(), o);
            }
        }
        impl<$($g)*> Dec for $t where $t: Collection<Owned: Dec> + FromIterator<<$t as Collection>::Owned> {
            fn dec(j: &J) -> Self {
                j.arr().iter().map(Dec::dec).collect()
            }
        }
    )*};
}
owned_rows! {
    [S: Buffer + 'static] Bitmap<S>;
    [T: ArrayItem + 'static, S: Buffer + 'static] Array<T, S>;
    [T: Collection + 'static, S: Buffer + 'static] Validity<T, S>;
    [T: Collection + 'static, const N: usize] Flatten<T, N>;
    [T: Collection + 'static, O: Offset + 'static, S: Buffer + 'static, U: FromIterator<T::Owned> + 'static] Offsets<T, O, S, U>;
}

impl<T: Enc, const N: usize> Enc for [T; N] {
    fn enc(&self, o: &mut String) {
        enc_seq(self.iter(), o);
    }
}
impl<T: Dec, const N: usize> Dec for [T; N] {
    fn dec(j: &J) -> Self {
        let a = j.arr();
        assert!(a.len() == N, "script: array item length");
        std::array::from_fn(|i| T::dec(&a[i]))
    }
}
impl<'a, C: Collection + 'static, const N: usize> Enc for FlattenView<'a, C, N>
where
    C::View<'a>: Enc,
{
    fn enc(&self, o: &mut String) {
        enc_seq(self.iter(), o);
    }
}
impl<'a, T: Collection + 'static, O: Offset, S: Buffer + 'static, U: 'static> Enc for OffsetView<'a, T, O, S, U>
where
    T::Owned: Enc,
    for<'x> T::View<'x>: Enc,
{
    fn enc(&self, o: &mut String) {
        // Iteration and indexing of the nested view must agree; print both
        // when they do not, so that the trace cannot match.
        use narrow::length::Length;
        let mut a = String::new();
        enc_seq(self.iter_views(), &mut a);
        let mut b = String::from("[");
        for i in 0..self.len() {
            if i > 0 {
                b.push(',');
            }
            match self.view(i) {
                Some(v) => v.enc(&mut b),
                None => b.push_str("\"?none\""),
            }
        }
        b.push(']');
        let n = self.len();
        let oob = [n, n + 1, usize::MAX, usize::MAX - 1, usize::MAX - n];
        if !(a == b && oob.iter().all(|i| self.view(*i).is_none()) && self.is_empty() == (n == 0)) {
            anomaly("list-view");
        }
        let mut c = String::new();
        enc_seq(narrow::collection::Collection::into_iter_owned(*self), &mut c);
        if a != c || self.iter_views().size_hint() != (n, Some(n)) {
            anomaly("list-view-owned");
        }
        o.push_str(&a);
    }
}

thread_local! {
    static ANOM: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Records that a nested read disagreed with itself.
pub fn anomaly(what: &'static str) {
    ANOM.with(|a| a.borrow_mut().push(what));
}
pub fn take_anomalies() -> Vec<&'static str> {
    ANOM.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
