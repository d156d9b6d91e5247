//! Lists of elements without memory, whose rows can be as long as offsets can
//! count: a row is named by its number of elements.
use crate::json::J;
use crate::phys::{Phys, Refused};
use crate::val::{Dec, Enc, anomaly, enc_seq};
use narrow::buffer::{Buffer, VecBuffer};
use narrow::collection::flatten::{Flatten, FlattenView};
use narrow::collection::owned::IntoOwned;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::length::Length;
use narrow::offset::{Offset, OffsetView, Offsets};
use narrow::validity::Validity;
use std::fmt::Write;
use std::iter::{Map, RepeatN, repeat_n};

pub type Unit = FixedSizeArray<u16, 0>;

/// A collection of units.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Count(usize);

fn units<I: Iterator<Item = Unit>>(i: I) -> usize {
    match i.size_hint() {
        (n, Some(m)) if n == m => n,
        _ => i.count(),
    }
}
fn unit() -> Unit {
    Unit::default()
}

impl Length for Count {
    fn len(&self) -> usize {
        self.0
    }
}
impl Collection for Count {
    type View<'a> = Unit;
    type Owned = Unit;
    fn view(&self, i: usize) -> Option<Unit> {
        (i < self.0).then(unit)
    }
    type Iter<'a> = RepeatN<Unit>;
    fn iter_views(&self) -> RepeatN<Unit> {
        repeat_n(unit(), self.0)
    }
    type IntoIter = RepeatN<Unit>;
    fn into_iter_owned(self) -> RepeatN<Unit> {
        repeat_n(unit(), self.0)
    }
}
impl CollectionAllocIn for Count {
    type Alloc = ();
    fn with_capacity_in(_: usize, (): ()) -> Self {
        Self(0)
    }
    fn from_iter_in<I: IntoIterator<Item = Unit>>(i: I, (): ()) -> Self {
        Self(units(i.into_iter()))
    }
    fn try_with_capacity_in(_: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Self(0))
    }
    fn try_from_iter_in<I: IntoIterator<Item = Unit>>(i: I, (): ()) -> Result<Self, AllocError> {
        Ok(Self(units(i.into_iter())))
    }
}
impl CollectionRealloc for Count {
    fn allocator(&self) {}
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        self.0.checked_add(n).map(|_| ()).ok_or(AllocError)
    }
    fn try_extend<I: IntoIterator<Item = Unit>>(&mut self, i: I) -> Result<(), AllocError> {
        self.0 = self.0.checked_add(units(i.into_iter())).ok_or(AllocError)?;
        Ok(())
    }
    fn reserve(&mut self, n: usize) {
        assert!(self.0.checked_add(n).is_some(), "capacity overflow");
    }
    fn truncate(&mut self, n: usize) {
        self.0 = self.0.min(n);
    }
}
impl Extend<Unit> for Count {
    fn extend<I: IntoIterator<Item = Unit>>(&mut self, i: I) {
        self.0 = self.0.checked_add(units(i.into_iter())).expect("capacity overflow");
    }
}
impl FromIterator<Unit> for Count {
    fn from_iter<I: IntoIterator<Item = Unit>>(i: I) -> Self {
        Self(units(i.into_iter()))
    }
}

impl<'a> narrow::collection::view::AsView<'a> for Count {
    type View = &'a Count;
    fn as_view(&'a self) -> &'a Count {
        self
    }
}
impl IntoOwned<Count> for &Count {
    fn into_owned(self) -> Count {
        self.clone()
    }
}

// Numbers of elements are little-endian digits of base 2^16.
fn digits(n: u128, o: &mut String) {
    let _ = write!(o, "[{},{},{},{},{}]", n & 0xffff, n >> 16 & 0xffff, n >> 32 & 0xffff, n >> 48 & 0xffff, n >> 64);
}
impl Enc for Count {
    fn enc(&self, o: &mut String) {
        digits(self.0 as u128, o);
    }
}
impl Dec for Count {
    fn dec(j: &J) -> Self {
        Self(j.arr().iter().rev().fold(0, |a, d| a << 16 | usize::try_from(d.num()).unwrap()))
    }
}

/// Views of rows, printed as numbers of elements.
pub trait Lens {
    fn lens(&self, o: &mut String);
}
impl<O: Offset, S: Buffer> Lens for OffsetView<'_, Count, O, S, Count> {
    fn lens(&self, o: &mut String) {
        let n = self.len();
        let ends = self.view(n).is_none() && self.view(usize::MAX).is_none() && (n == 0 || self.view(n - 1).is_some());
        if !ends || self.is_empty() != (n == 0) || self.iter_views().size_hint() != (n, Some(n)) {
            anomaly("units");
        }
        digits(n as u128, o);
    }
}
fn lens_seq<V: Lens, I: Iterator<Item = V>>(i: I, o: &mut String) {
    o.push('[');
    for (i, v) in i.enumerate() {
        if i > 0 {
            o.push(',');
        }
        v.lens(o);
    }
    o.push(']');
}
impl<'a, O: Offset, P: Offset, S: Buffer, R: Buffer> Lens
    for OffsetView<'a, Offsets<Count, P, R, Count>, O, S, Vec<Count>>
{
    fn lens(&self, o: &mut String) {
        lens_seq(self.iter_views(), o);
    }
}
impl<V: Lens> Lens for Option<V> {
    fn lens(&self, o: &mut String) {
        lens_seq(self.iter(), o);
    }
}
impl<V: Lens> Lens for &V {
    fn lens(&self, o: &mut String) {
        (**self).lens(o);
    }
}
impl<'a, C: Collection, const N: usize> Lens for FlattenView<'a, C, N>
where
    C::View<'a>: Lens,
{
    fn lens(&self, o: &mut String) {
        lens_seq(self.iter(), o);
    }
}

/// A view that prints as numbers of elements.
#[derive(Clone, Copy)]
pub struct UView<V>(V);
impl<V: IntoOwned<T>, T> IntoOwned<T> for UView<V> {
    fn into_owned(self) -> T {
        self.0.into_owned()
    }
}
impl<V: Lens> Enc for UView<V> {
    fn enc(&self, o: &mut String) {
        self.0.lens(o);
    }
}

/// A collection whose rows are named by their numbers of elements.
#[derive(Clone, Default)]
pub struct Units<C>(C);

impl<C: Collection> Length for Units<C> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<C: Collection> Collection for Units<C> {
    type View<'a>
        = UView<C::View<'a>>
    where
        Self: 'a;
    type Owned = C::Owned;
    fn view(&self, i: usize) -> Option<Self::View<'_>> {
        self.0.view(i).map(UView)
    }
    fn owned(&self, i: usize) -> Option<C::Owned> {
        self.0.owned(i)
    }
    type Iter<'a>
        = Map<C::Iter<'a>, fn(C::View<'a>) -> UView<C::View<'a>>>
    where
        Self: 'a;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.0.iter_views().map(UView)
    }
    type IntoIter = C::IntoIter;
    fn into_iter_owned(self) -> C::IntoIter {
        self.0.into_iter_owned()
    }
}
impl<C: CollectionAllocIn> CollectionAllocIn for Units<C> {
    type Alloc = C::Alloc;
    fn with_capacity_in(n: usize, a: C::Alloc) -> Self {
        Self(C::with_capacity_in(n, a))
    }
    fn from_iter_in<I: IntoIterator<Item = C::Owned>>(i: I, a: C::Alloc) -> Self {
        Self(C::from_iter_in(i, a))
    }
    fn try_with_capacity_in(n: usize, a: C::Alloc) -> Result<Self, AllocError> {
        C::try_with_capacity_in(n, a).map(Self)
    }
    fn try_from_iter_in<I: IntoIterator<Item = C::Owned>>(i: I, a: C::Alloc) -> Result<Self, AllocError> {
        C::try_from_iter_in(i, a).map(Self)
    }
}
impl<C: CollectionRealloc> CollectionRealloc for Units<C> {
    fn allocator(&self) -> C::Alloc {
        self.0.allocator()
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        self.0.try_reserve(n)
    }
    fn try_extend<I: IntoIterator<Item = C::Owned>>(&mut self, i: I) -> Result<(), AllocError> {
        self.0.try_extend(i)
    }
    fn reserve(&mut self, n: usize) {
        self.0.reserve(n);
    }
    fn truncate(&mut self, n: usize) {
        self.0.truncate(n);
    }
}
impl<T, C: Extend<T>> Extend<T> for Units<C> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.extend(i);
    }
}
impl<T, C: FromIterator<T>> FromIterator<T> for Units<C> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}

pub trait UnitItem {
    fn item(o: &mut String);
}
impl<O: Offset> UnitItem for Offsets<Count, O, VecBuffer, Count> {
    fn item(o: &mut String) {
        o.push_str("{\"k\":\"run\",\"max\":");
        digits(if size_of::<O>() == 4 { i32::MAX as u128 } else { i64::MAX as u128 }, o);
        o.push('}');
    }
}
impl<O: Offset, C: UnitItem + Collection> UnitItem for Offsets<C, O, VecBuffer, Vec<Count>> {
    fn item(o: &mut String) {
        o.push_str("{\"k\":\"list\",\"c\":");
        C::item(o);
        o.push('}');
    }
}
impl<C: UnitItem + Collection> UnitItem for Validity<C, VecBuffer> {
    fn item(o: &mut String) {
        o.push_str("{\"k\":\"null\",\"c\":");
        C::item(o);
        o.push('}');
    }
}
impl<C: UnitItem + Collection, const N: usize> UnitItem for Flatten<C, N> {
    fn item(o: &mut String) {
        let _ = write!(o, "{{\"k\":\"fsl\",\"n\":{N},\"c\":");
        C::item(o);
        o.push('}');
    }
}
impl<C: UnitItem + Collection> Phys for Units<C>
where
    C::Owned: Enc,
{
    fn layout(o: &mut String) {
        o.push_str("{\"k\":\"std\",\"c\":");
        C::item(o);
        o.push('}');
    }
    fn dump(&self, o: &mut String) {
        o.push_str("{\"v\":");
        enc_seq((0..self.len()).map(|i| self.0.owned(i).expect("item")), o);
        o.push('}');
    }
    fn allocs(&self, _: &mut Vec<u32>) {}
    fn from_phys(_: &J, _: u32) -> Result<Self, Refused> {
        Err(Refused::Unsupported)
    }
    fn reassemble(self) -> Result<Self, Refused> {
        Ok(self)
    }
    fn bit_offsets(&self, _: &mut Vec<usize>) {}
}
