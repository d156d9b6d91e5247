//! Operations some subjects have beyond those of every collection: cursors
//! over one row's view, comparisons of row views, and copies; and the standard
//! collections holding items that are not fixed-size values.
use crate::json::J;
use crate::phys::{Phys, Refused};
use crate::run::{Ro, drive};
use crate::val::{Dec, Enc, enc_seq};
use narrow::buffer::Buffer;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::length::Length;
use narrow::offset::{Offset, OffsetView};
use std::rc::Rc;
use std::sync::Arc;

/// What a subject can do beyond every collection's operations.
pub struct Ext<C> {
    pub clone: Option<fn(&C) -> C>,
    pub row: Option<fn(&C, &J, &mut String)>,
    pub eq: Option<fn(&C, &J, &mut String)>,
}
impl<C> Ext<C> {
    pub const NONE: Self = Self { clone: None, row: None, eq: None };
}
impl<C: Clone> Ext<C> {
    pub const CLONE: Self = Self { clone: Some(C::clone), row: None, eq: None };
}
impl<C: Ro> Ext<C>
where
    for<'a> C::View<'a>: Row,
{
    pub const ROWS: Self = Self { clone: None, row: Some(row::<C>), eq: None };
}
impl<C: Ro> Ext<C>
where
    for<'a> C::View<'a>: Row + RowEq,
{
    pub const EQ: Self = Self { clone: None, row: Some(row::<C>), eq: Some(eq::<C>) };
}

/// The view of one list row (or of a null).
pub trait Row {
    fn cursor(&self, op: &J, o: &mut String);
}
pub trait RowEq: Row {
    fn null(&self) -> bool;
    /// Both rows are there and compare equal.
    fn same(&self, other: &Self) -> bool;
    /// The row compares equal to these items in a collection of its kind.
    fn versus(&self, items: &J) -> bool;
}
impl<T: Collection + 'static, O: Offset, S: Buffer + 'static, U: 'static> Row for OffsetView<'_, T, O, S, U>
where
    T::Owned: Enc,
    for<'x> T::View<'x>: Enc,
{
    fn cursor(&self, op: &J, o: &mut String) {
        if op.get("by").str() == "owned" {
            drive(self.into_iter_owned(), op, |i| Some(i.len()), |x, o| x.enc(o), o);
        } else {
            drive(self.iter_views(), op, |_| None, |x, o| x.enc(o), o);
        }
    }
}
impl<T, O: Offset, S: Buffer + 'static, U: 'static> RowEq for OffsetView<'_, T, O, S, U>
where
    T: Collection + FromIterator<T::Owned> + 'static,
    T::Owned: Enc + Dec,
    for<'x> T::View<'x>: Enc,
    for<'x, 'y> T::View<'x>: PartialEq<T::View<'y>>,
{
    fn null(&self) -> bool {
        false
    }
    fn same(&self, other: &Self) -> bool {
        let c: T = other.into_iter_owned().collect();
        *self == c
    }
    fn versus(&self, items: &J) -> bool {
        let c: T = items.arr().iter().map(T::Owned::dec).collect();
        *self == c
    }
}
impl<V: Row> Row for Option<V> {
    fn cursor(&self, op: &J, o: &mut String) {
        if let Some(v) = self {
            v.cursor(op, o);
        }
    }
}
impl<V: RowEq> RowEq for Option<V> {
    fn null(&self) -> bool {
        self.is_none()
    }
    fn same(&self, other: &Self) -> bool {
        matches!((self, other), (Some(a), Some(b)) if a.same(b))
    }
    fn versus(&self, items: &J) -> bool {
        self.as_ref().is_some_and(|v| v.versus(items))
    }
}

fn row<C: Ro>(c: &C, op: &J, o: &mut String)
where
    for<'a> C::View<'a>: Row,
{
    if let Some(v) = c.view(op.get("i").size()) {
        v.cursor(op, o);
    }
}

fn bits(o: &mut String, n: usize, f: impl Fn(usize) -> bool) {
    o.push('[');
    for i in 0..n {
        o.push_str(if i > 0 { "," } else { "" });
        o.push_str(if f(i) { "1" } else { "0" });
    }
    o.push(']');
}

/// `{"rows":[[..]],"cands":[[..]]}`: which rows equal which rows and which
/// candidates.
fn eq<C: Ro>(c: &C, op: &J, o: &mut String)
where
    for<'a> C::View<'a>: RowEq,
{
    let n = c.len();
    let vs: Vec<_> = (0..n).map(|i| c.view(i).expect("row")).collect();
    let cands = op.get("cands").arr();
    o.push_str("{\"rows\":[");
    for i in 0..n {
        o.push_str(if i > 0 { "," } else { "" });
        bits(o, n, |j| vs[i].same(&vs[j]));
    }
    o.push_str("],\"cands\":[");
    for i in 0..n {
        o.push_str(if i > 0 { "," } else { "" });
        bits(o, cands.len(), |j| vs[i].versus(&cands[j]));
    }
    o.push_str("]}");
}

/// A standard collection of arbitrary items, seen as a collection.
#[derive(Clone, Debug, Default)]
pub struct Std<C>(pub C);

pub trait StdFrom: Collection {
    const ITEM: &'static str;
    fn of(v: Vec<Self::Owned>) -> Option<Self>
    where
        Self: Sized;
}
/// Layout of the items of a standard collection.
pub trait ItemLayout {
    const LAYOUT: &'static str;
}
macro_rules! item_layout {
    ($($t:ty, $l:literal;)*) => {$( impl ItemLayout for $t { const LAYOUT: &'static str = $l; } )*};
}
item_layout! {
    bool, "{\"k\":\"bool\"}";
    Vec<u8>, "{\"k\":\"list\",\"c\":{\"k\":\"prim\"}}";
    Vec<Option<bool>>, "{\"k\":\"list\",\"c\":{\"k\":\"null\",\"c\":{\"k\":\"bool\"}}}";
    [u16; 2], "{\"k\":\"fsl\",\"n\":2,\"c\":{\"k\":\"prim\"}}";
    [Vec<bool>; 2], "{\"k\":\"fsl\",\"n\":2,\"c\":{\"k\":\"list\",\"c\":{\"k\":\"bool\"}}}";
    Vec<Vec<u8>>, "{\"k\":\"list\",\"c\":{\"k\":\"list\",\"c\":{\"k\":\"prim\"}}}";
}
macro_rules! std_from {
    ($([$($g:tt)*] $c:ty, $f:expr;)*) => {$(
        impl<T: ItemLayout, $($g)*> StdFrom for $c where Self: Collection<Owned = T> {
            const ITEM: &'static str = T::LAYOUT;
            fn of(v: Vec<T>) -> Option<Self> { ($f)(v) }
        }
    )*};
}
std_from! {
    [] Vec<T>, Some;
    [] Box<[T]>, |v: Vec<T>| Some(v.into());
    [] Rc<[T]>, |v: Vec<T>| Some(v.into());
    [] Arc<[T]>, |v: Vec<T>| Some(v.into());
    [] &'static [T], |v: Vec<T>| -> Option<&'static [T]> { Some(Box::leak(v.into_boxed_slice())) };
    [const N: usize] [T; N], |v: Vec<T>| v.try_into().ok();
}

impl<C: Length> Length for Std<C> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<C: Collection> Collection for Std<C> {
    type View<'a>
        = C::View<'a>
    where
        Self: 'a;
    type Owned = C::Owned;
    fn view(&self, i: usize) -> Option<C::View<'_>> {
        self.0.view(i)
    }
    fn owned(&self, i: usize) -> Option<C::Owned> {
        self.0.owned(i)
    }
    type Iter<'a>
        = C::Iter<'a>
    where
        Self: 'a;
    fn iter_views(&self) -> C::Iter<'_> {
        self.0.iter_views()
    }
    type IntoIter = C::IntoIter;
    fn into_iter_owned(self) -> C::IntoIter {
        self.0.into_iter_owned()
    }
}
impl<C: CollectionAllocIn> CollectionAllocIn for Std<C> {
    type Alloc = C::Alloc;
    fn with_capacity_in(n: usize, a: C::Alloc) -> Self {
        Self(C::with_capacity_in(n, a))
    }
    fn from_iter_in<I: IntoIterator<Item = C::Owned>>(i: I, a: C::Alloc) -> Self {
        Self(C::from_iter_in(i, a))
    }
    fn try_with_capacity_in(n: usize, a: C::Alloc) -> Result<Self, AllocError> {
        C::try_with_capacity_in(n, a).map(Self)
    }
    fn try_from_iter_in<I: IntoIterator<Item = C::Owned>>(i: I, a: C::Alloc) -> Result<Self, AllocError> {
        C::try_from_iter_in(i, a).map(Self)
    }
}
impl<C: CollectionRealloc> CollectionRealloc for Std<C> {
    fn allocator(&self) -> C::Alloc {
        self.0.allocator()
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        self.0.try_reserve(n)
    }
    fn try_extend<I: IntoIterator<Item = C::Owned>>(&mut self, i: I) -> Result<(), AllocError> {
        self.0.try_extend(i)
    }
    fn reserve(&mut self, n: usize) {
        CollectionRealloc::reserve(&mut self.0, n);
    }
    fn truncate(&mut self, n: usize) {
        CollectionRealloc::truncate(&mut self.0, n);
    }
}
impl<T, C: Extend<T>> Extend<T> for Std<C> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.extend(i);
    }
}
impl<T, C: FromIterator<T>> FromIterator<T> for Std<C> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<C: StdFrom> Phys for Std<C>
where
    C::Owned: Enc + Dec,
    for<'a> C::View<'a>: Enc,
{
    fn layout(o: &mut String) {
        o.push_str("{\"k\":\"std\",\"c\":");
        o.push_str(C::ITEM);
        o.push('}');
    }
    fn dump(&self, o: &mut String) {
        o.push_str("{\"v\":");
        enc_seq((0..self.len()).map(|i| self.0.owned(i).expect("item")), o);
        o.push('}');
    }
    fn allocs(&self, _: &mut Vec<u32>) {}
    fn from_phys(j: &J, _: u32) -> Result<Self, Refused> {
        C::of(j.get("v").arr().iter().map(C::Owned::dec).collect()).map(Self).ok_or(Refused::Unsupported)
    }
    fn reassemble(self) -> Result<Self, Refused> {
        Ok(self)
    }
    fn bit_offsets(&self, _: &mut Vec<usize>) {}
}
