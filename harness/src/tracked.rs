//! Caller-supplied storage: a growable buffer with an allocator handle, an
//! exact capacity, a growth log and a fault schedule.
use narrow::buffer::Buffer;
use narrow::collection::view::AsView;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSize;
use narrow::length::Length;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;

/// Allocator handle.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Handle(pub u32);

#[derive(Clone, Copy, Debug, Default)]
pub struct TBuf;
impl Buffer for TBuf {
    type For<T: FixedSize> = TVec<T>;
}

#[derive(Debug)]
pub struct TVec<T> {
    pub v: Vec<T>,
    pub cap: usize,
    pub id: u32,
}

thread_local! {
    static GROWS: Cell<i64> = const { Cell::new(0) };
    static ARMED: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}
pub fn grows() -> i64 {
    GROWS.with(Cell::get)
}
pub fn arm(k: i64) {
    FIRED.with(|f| f.set(false));
    ARMED.with(|a| a.set(k));
}
pub fn disarm() -> bool {
    ARMED.with(|a| a.set(-1));
    FIRED.with(Cell::get)
}
const LIMIT: usize = 1 << 32;

fn request(total: usize) -> bool {
    GROWS.with(|g| g.set(g.get() + 1));
    let k = ARMED.with(Cell::get);
    if k == 0 || total > LIMIT {
        FIRED.with(|f| f.set(true));
        return false;
    }
    if k > 0 {
        ARMED.with(|a| a.set(k - 1));
    }
    true
}

impl<T> TVec<T> {
    fn grow(&mut self, additional: usize) -> Result<(), AllocError> {
        let total = self.v.len().checked_add(additional).ok_or(AllocError)?;
        if total > self.cap {
            if !request(total) {
                return Err(AllocError);
            }
            self.cap = total;
            self.v.reserve(additional);
        }
        Ok(())
    }
    fn grow_or_die(&mut self, additional: usize) {
        self.grow(additional).expect("infallible growth refused");
    }
}

impl<T> Default for TVec<T> {
    fn default() -> Self {
        Self { v: Vec::new(), cap: 0, id: 0 }
    }
}
impl<T> Borrow<[T]> for TVec<T> {
    fn borrow(&self) -> &[T] {
        &self.v
    }
}
impl<T> BorrowMut<[T]> for TVec<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T> Length for TVec<T> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T> Extend<T> for TVec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let it = iter.into_iter();
        self.grow_or_die(it.size_hint().0);
        for x in it {
            self.grow_or_die(1);
            self.v.push(x);
        }
    }
}
impl<T> FromIterator<T> for TVec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut s = Self::default();
        s.extend(iter);
        s
    }
}
impl<T: FixedSize + for<'a> AsView<'a>> Collection for TVec<T> {
    type View<'a> = <T as AsView<'a>>::View;
    type Owned = T;
    fn view(&self, index: usize) -> Option<Self::View<'_>> {
        self.v.get(index).map(AsView::as_view)
    }
    type Iter<'a> = <Vec<T> as Collection>::Iter<'a>;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.v.iter_views()
    }
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<T: FixedSize + for<'a> AsView<'a>> CollectionAllocIn for TVec<T> {
    type Alloc = Handle;
    fn with_capacity_in(capacity: usize, alloc: Handle) -> Self {
        Self::try_with_capacity_in(capacity, alloc).expect("infallible growth refused")
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: Handle) -> Self {
        let mut s = Self { id: alloc.0, ..Self::default() };
        s.extend(iter);
        s
    }
    fn try_with_capacity_in(capacity: usize, alloc: Handle) -> Result<Self, AllocError> {
        let mut s = Self { id: alloc.0, ..Self::default() };
        s.grow(capacity)?;
        Ok(s)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: Handle) -> Result<Self, AllocError> {
        let mut s = Self { id: alloc.0, ..Self::default() };
        s.try_extend(iter)?;
        Ok(s)
    }
}
impl<T: FixedSize + for<'a> AsView<'a>> CollectionRealloc for TVec<T> {
    fn allocator(&self) -> Handle {
        Handle(self.id)
    }
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        self.grow(additional)
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) -> Result<(), AllocError> {
        let len = self.v.len();
        let it = iter.into_iter();
        self.grow(it.size_hint().0)?;
        for x in it {
            if let Err(e) = self.grow(1) {
                self.v.truncate(len);
                return Err(e);
            }
            self.v.push(x);
        }
        Ok(())
    }
    fn reserve(&mut self, additional: usize) {
        self.grow_or_die(additional);
    }
    fn truncate(&mut self, len: usize) {
        self.v.truncate(len);
    }
}

/// The caller-visible allocator of a collection.
pub trait AllocId: Clone {
    const TRACKED: bool;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
}
impl AllocId for () {
    const TRACKED: bool = false;
    fn mk(_: u32) {}
    fn id(&self) -> u32 {
        0
    }
}
impl AllocId for Handle {
    const TRACKED: bool = true;
    fn mk(id: u32) -> Self {
        Self(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
