//! Executes scripts on collections and records what is observable.
use crate::extra::{Ext, Row, RowEq};
use crate::json::{J, num, quote};
use crate::phys::{Phys, Refused, place};
use crate::tracked::AllocId;
use crate::val::{Dec, Enc, enc_seq, take_anomalies};
use crate::{alloc, tracked};
use narrow::collection::{AllocError, Collection, CollectionAlloc, CollectionAllocIn, CollectionRealloc};
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// An item source with a chosen size hint, panic point and post-end behaviour.
pub struct Src<T> {
    items: std::vec::IntoIter<T>,
    after: std::vec::IntoIter<T>,
    hint: String,
    panic_at: i64,
    made: i64,
    ended: bool,
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.made == self.panic_at {
            self.panic_at = -1;
            self.items = Vec::new().into_iter();
            self.after = Vec::new().into_iter();
            panic!("source panics");
        }
        if self.ended {
            return self.after.next();
        }
        match self.items.next() {
            Some(x) => {
                self.made += 1;
                Some(x)
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.ended { self.after.len() } else { self.items.len() };
        match self.hint.as_str() {
            "exact" => (n, Some(n)),
            "zero" => (0, None),
            "zeroexact" => (0, Some(n)),
            "half" => (n / 2, None),
            "one" => (n.min(1), Some(n + 3)),
            "loose" => (0, Some(n + 5)),
            "huge" => (0, Some(usize::MAX)),
            "lowhuge" => (n, Some(usize::MAX)),
            "near" => (n.saturating_sub(1), Some(n + 1)),
            "nohi" => (n, None),
            "big" => (n / 2, Some(1 << 40)),
            h => panic!("script: hint {h}"),
        }
    }
}
pub fn src<T: Dec>(op: &J) -> Src<T> {
    let s = op.get("src");
    Src {
        items: op.get("items").arr().iter().map(T::dec).collect::<Vec<_>>().into_iter(),
        after: s.get("after").arr().iter().map(T::dec).collect::<Vec<_>>().into_iter(),
        hint: s.get("hint").str_or("exact").to_string(),
        panic_at: s.get("panic").num_or(-1),
        made: 0,
        ended: false,
    }
}

/// Runs `f`, returning None (and remembering the message) if it panics.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".to_string())
    })
}

/// `"key":[value]`, or `"key":[]` if producing the value panicked.
pub fn field(o: &mut String, key: &str, f: impl FnOnce(&mut String)) {
    let _ = write!(o, ",\"{key}\":[");
    let mut v = String::new();
    if guard(|| f(&mut v)).is_ok() {
        o.push_str(&v);
    }
    o.push(']');
}

pub trait Ro: Collection + Phys + 'static {
    fn enc_owned(x: &Self::Owned, o: &mut String);
    fn enc_view(x: &Self::View<'_>, o: &mut String);
}
impl<C: Collection + Phys + 'static> Ro for C
where
    C::Owned: Enc,
    for<'a> C::View<'a>: Enc,
{
    fn enc_owned(x: &Self::Owned, o: &mut String) {
        x.enc(o);
    }
    fn enc_view(x: &Self::View<'_>, o: &mut String) {
        x.enc(o);
    }
}

fn sep(i: usize, o: &mut String) {
    if i > 0 {
        o.push(',');
    }
}

pub fn far(n: usize) -> Vec<usize> {
    let mut v = vec![n, n + 1, n + 2, n + 3, n + 7, n + 8, n + 9, n + 64, n + 1024];
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX - 7, usize::MAX - 8, usize::MAX - n, usize::MAX / 2, usize::MAX / 2 + 1]);
    v.extend([usize::MAX / 3, usize::MAX / 3 + 1, usize::MAX / 8, usize::MAX / 8 + 1, 1 << 31, 1 << 32, 1 << 61, 1 << 63]);
    v.retain(|i| *i >= n);
    v
}

/// Everything a user can read from a collection.
pub fn observe<C: Ro>(c: &C, o: &mut String) {
    o.push_str(",\"obs\":{\"k\":1");
    let n = c.len();
    field(o, "len", |o| num(n, o));
    field(o, "empty", |o| o.push_str(if c.is_empty() { "1" } else { "0" }));
    let seen = n.min(1 << 17);
    field(o, "vw", |o| {
        o.push('[');
        for i in 0..seen {
            sep(i, o);
            o.push('[');
            if let Some(v) = c.view(i) {
                C::enc_view(&v, o);
            }
            o.push(']');
        }
        o.push(']');
    });
    field(o, "ow", |o| {
        o.push('[');
        for i in 0..seen {
            sep(i, o);
            o.push('[');
            if let Some(v) = c.owned(i) {
                C::enc_owned(&v, o);
            }
            o.push(']');
        }
        o.push(']');
    });
    field(o, "it", |o| {
        o.push('[');
        for (i, v) in c.iter_views().take(seen + 8).enumerate() {
            sep(i, o);
            C::enc_view(&v, o);
        }
        o.push(']');
    });
    field(o, "oob", |o| {
        let ok = far(n).iter().all(|i| c.view(*i).is_none() && c.owned(*i).is_none());
        o.push_str(if ok { "1" } else { "0" });
    });
    field(o, "ph", |o| c.dump(o));
    field(o, "al", |o| {
        let mut a = Vec::new();
        c.allocs(&mut a);
        let _ = write!(o, "{a:?}");
    });
    let an = take_anomalies();
    let _ = write!(o, ",\"anom\":{}", an.len());
    if let Some(x) = place::inplace() {
        let _ = write!(o, ",\"inp\":{}", u8::from(x));
    }
    o.push('}');
}

fn hint(h: (usize, Option<usize>), o: &mut String) {
    o.push('[');
    num(h.0, o);
    o.push(',');
    match h.1 {
        None => o.push_str("-3"),
        Some(x) => num(x, o),
    }
    o.push(']');
}

/// Drives an iterator through the script's steps, recording hints and items.
pub fn drive<I: Iterator>(mut it: I, op: &J, len: impl Fn(&I) -> Option<usize>, enc: impl Fn(&I::Item, &mut String), o: &mut String) {
    let ln = |it: &I, o: &mut String| {
        o.push_str(",\"n\":");
        match len(it) {
            Some(n) => num(n, o),
            None => o.push_str("-3"),
        }
    };
    o.push_str("{\"h0\":{\"h\":");
    hint(it.size_hint(), o);
    ln(&it, o);
    o.push_str("},\"r\":[");
    for (i, s) in op.get("steps").arr().iter().enumerate() {
        sep(i, o);
        let k = s.size();
        let x = if k == 0 { it.next() } else { it.nth(k) };
        o.push_str("{\"x\":[");
        if let Some(x) = x {
            enc(&x, o);
        }
        o.push_str("],\"h\":");
        hint(it.size_hint(), o);
        ln(&it, o);
        o.push('}');
    }
    o.push_str("],\"tail\":");
    match op.get("tail").str_or("none") {
        "count" => num(it.count(), o),
        "last" => {
            o.push('[');
            if let Some(x) = it.last() {
                enc(&x, o);
            }
            o.push(']');
        }
        "fold" => {
            let mut first = true;
            let mut s = String::from("[");
            it.for_each(|x| {
                if !first {
                    s.push(',');
                }
                first = false;
                enc(&x, &mut s);
            });
            s.push(']');
            o.push_str(&s);
        }
        "rest" => {
            let mut s = String::from("[");
            let mut i = 0;
            while let Some(x) = it.next() {
                sep(i, &mut s);
                enc(&x, &mut s);
                i += 1;
                if i > 1 << 17 {
                    break;
                }
            }
            // Ended iterators over collections stay ended.
            if it.next().is_some() {
                crate::val::anomaly("restart");
            }
            s.push(']');
            o.push_str(&s);
        }
        _ => o.push_str("0"),
    }
    o.push('}');
}

/// Opens an event: the script's own fields first.
pub fn open(op: &J, o: &mut String) {
    let mut s = String::new();
    op.write(&mut s);
    s.pop();
    o.push_str(&s);
}

pub fn outcome(o: &mut String, r: &Result<bool, String>) {
    match r {
        Ok(true) => o.push_str(",\"res\":\"ok\",\"msg\":\"\""),
        Ok(false) => o.push_str(",\"res\":\"err\",\"msg\":\"\""),
        Err(m) => {
            o.push_str(",\"res\":\"panic\",\"msg\":");
            quote(m, o);
        }
    }
}

/// Ops available on every collection. Returns None when the op consumed it.
pub fn read_op<C: Ro>(c: C, op: &J, x: &Ext<C>, kept: &mut Option<C>, o: &mut String) -> Option<C> {
    match op.get("op").str() {
        "row" => {
            open(op, o);
            let f = x.row.expect("script: rows");
            field(o, "out", |o| f(&c, op, o));
            let _ = write!(o, ",\"anom\":{}}}", take_anomalies().len());
            Some(c)
        }
        "eq" => {
            open(op, o);
            let f = x.eq.expect("script: comparisons");
            field(o, "out", |o| f(&c, op, o));
            o.push('}');
            Some(c)
        }
        // the copy carries on, or the original does; the other is kept
        "clone" => {
            open(op, o);
            let f = x.clone.expect("script: copies");
            let r = guard(|| f(&c));
            outcome(o, &r.as_ref().map(|_| true).map_err(Clone::clone));
            let c = match r {
                Ok(d) => {
                    let (c, d) = if op.get("n").size() == 0 { (c, d) } else { (d, c) };
                    *kept = Some(d);
                    c
                }
                Err(_) => c,
            };
            observe(&c, o);
            o.push('}');
            Some(c)
        }
        "swap" => {
            open(op, o);
            let d = kept.replace(c).expect("script: nothing kept");
            outcome(o, &Ok(true));
            observe(&d, o);
            o.push('}');
            Some(d)
        }
        "iter" => {
            open(op, o);
            field(o, "out", |o| drive(c.iter_views(), op, |_| None, |x, o| C::enc_view(x, o), o));
            let _ = write!(o, ",\"anom\":{}}}", take_anomalies().len());
            Some(c)
        }
        "into" => {
            open(op, o);
            field(o, "out", |o| {
                drive(c.into_iter_owned(), op, |i| Some(i.len()), |x, o| C::enc_owned(x, o), o)
            });
            let _ = write!(o, ",\"anom\":{}}}", take_anomalies().len());
            None
        }
        "parts" => {
            open(op, o);
            let r = guard(|| c.reassemble().ok());
            outcome(o, &r.as_ref().map(Option::is_some).map_err(Clone::clone));
            let c = r.ok().flatten();
            if let Some(c) = &c {
                observe(c, o);
            }
            o.push('}');
            c
        }
        k => panic!("script: op {k}"),
    }
}

/// Constructs from physical parts.
pub fn new_phys<C: Ro>(op: &J, o: &mut String) -> Option<C> {
    let al = u32::try_from(op.get("al").num_or(0)).unwrap();
    let r = guard(|| C::from_phys(op.get("ph"), al));
    match r {
        Ok(Ok(c)) => {
            outcome(o, &Ok(true));
            o.push_str(",\"err\":{\"e\":\"\",\"f\":[]}");
            Some(c)
        }
        Ok(Err(Refused::Unsupported)) => {
            o.push_str(",\"res\":\"unsupported\",\"msg\":\"\",\"err\":{\"e\":\"\",\"f\":[]}");
            None
        }
        Ok(Err(Refused::Error(e, f))) => {
            outcome(o, &Ok(false));
            let _ = write!(o, ",\"err\":{{\"e\":\"{e}\",\"f\":[");
            for (i, x) in f.iter().enumerate() {
                sep(i, o);
                num(*x, o);
            }
            o.push_str("]}");
            None
        }
        Err(m) => {
            outcome(o, &Err(m));
            o.push_str(",\"err\":{\"e\":\"\",\"f\":[]}");
            None
        }
    }
}

pub fn head<C: Phys>(script: &J, o: &mut String) {
    place::reset();
    o.push_str("{\"id\":");
    script.get("id").write(o);
    o.push_str(",\"sub\":");
    script.get("sub").write(o);
    o.push_str(",\"L\":");
    C::layout(o);
    o.push_str(",\"ev\":[");
}

/// Read-only subjects: any storage, constructed from physical parts.
pub fn run_ro<C: Ro>(script: &J) -> String {
    ro_with(script, Ext::<C>::NONE)
}
pub fn ro_rows<C: Ro>(script: &J) -> String
where
    for<'a> C::View<'a>: Row,
{
    ro_with(script, Ext::<C>::ROWS)
}
pub fn ro_clone<C: Ro + Clone>(script: &J) -> String {
    ro_with(script, Ext::<C>::CLONE)
}
fn ro_with<C: Ro>(script: &J, x: Ext<C>) -> String {
    let mut o = String::new();
    head::<C>(script, &mut o);
    let mut cur: Option<C> = None;
    let mut kept: Option<C> = None;
    for (i, op) in script.get("ops").arr().iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        if op.get("op").str() == "new" {
            open(op, &mut o);
            cur = new_phys::<C>(op, &mut o);
            o.push_str(",\"fired\":0,\"grew\":0");
            if let Some(c) = &cur {
                observe(c, &mut o);
            }
            o.push('}');
        } else {
            let Some(c) = cur.take() else { panic!("script: nothing to operate on") };
            cur = read_op(c, op, &x, &mut kept, &mut o);
        }
        if cur.is_none() {
            break;
        }
    }
    o.push_str("]}");
    o
}

/// Fault control for a subject's allocator kind.
fn arm<A: AllocId>(op: &J) {
    let k = op.get("fail").num_or(-1);
    if A::TRACKED {
        tracked::arm(k);
    } else {
        alloc::arm(k);
    }
}
fn disarm<A: AllocId>() -> bool {
    if A::TRACKED { tracked::disarm() } else { alloc::disarm() }
}

pub trait Rw: Ro + CollectionAlloc<Alloc: AllocId, Owned: Dec> + CollectionRealloc {}
impl<C: Ro + CollectionAlloc<Alloc: AllocId, Owned: Dec> + CollectionRealloc> Rw for C {}

fn fallible<C, A: AllocId>(op: &J, f: impl FnOnce() -> Result<C, AllocError>, fired: &mut bool) -> Result<Option<C>, String> {
    arm::<A>(op);
    let r = guard(|| f().ok());
    *fired = disarm::<A>();
    r
}

/// Constructors of allocator-aware growable or boxed collections.
fn construct<C: Ro + CollectionAlloc<Alloc: AllocId, Owned: Dec>>(op: &J, o: &mut String) -> Option<C> {
    let al = <C::Alloc as AllocId>::mk(u32::try_from(op.get("al").num_or(0)).unwrap());
    let mut fired = false;
    let how = op.get("how").str();
    if how == "phys" {
        let c = new_phys::<C>(op, o);
        o.push_str(",\"fired\":0,\"grew\":0");
        return c;
    }
    let n = if op.get("n").is_null() { 0 } else { op.get("n").size() };
    let g0 = tracked::grows();
    let r: Result<Option<C>, String> = match how {
        "default" => guard(|| Some(C::default())),
        "with_capacity" => guard(|| Some(C::with_capacity(n))),
        "with_capacity_in" => guard(|| Some(C::with_capacity_in(n, al))),
        "collect" => {
            let s = src::<C::Owned>(op);
            guard(|| Some(s.collect()))
        }
        "from_iter_in" => {
            let s = src::<C::Owned>(op);
            guard(|| Some(C::from_iter_in(s, al)))
        }
        "try_with_capacity_in" => fallible::<C, C::Alloc>(op, || C::try_with_capacity_in(n, al), &mut fired),
        "try_from_iter_in" => {
            let s = src::<C::Owned>(op);
            fallible::<C, C::Alloc>(op, || C::try_from_iter_in(s, al), &mut fired)
        }
        h => panic!("script: how {h}"),
    };
    outcome(o, &r.as_ref().map(Option::is_some).map_err(Clone::clone));
    let _ = write!(o, ",\"fired\":{},\"grew\":{}", u8::from(fired), tracked::grows() - g0);
    r.ok().flatten()
}

/// Boxed storages: constructors and reads.
pub fn run_box<C: Ro + CollectionAlloc<Alloc: AllocId, Owned: Dec>>(script: &J) -> String {
    run_new::<C>(script, |op, o| construct::<C>(op, o))
}

/// Storages that can only be collected into.
pub fn run_collect<C: Ro + FromIterator<C::Owned>>(script: &J) -> String
where
    C::Owned: Dec,
{
    run_new::<C>(script, |op, o| {
        if op.get("how").str() == "phys" {
            let c = new_phys::<C>(op, o);
            o.push_str(",\"fired\":0,\"grew\":0");
            return c;
        }
        let s = src::<C::Owned>(op);
        let r = guard(|| s.collect::<C>());
        outcome(o, &r.as_ref().map(|_| true).map_err(Clone::clone));
        o.push_str(",\"fired\":0,\"grew\":0");
        r.ok()
    })
}

fn run_new<C: Ro>(script: &J, new: impl Fn(&J, &mut String) -> Option<C>) -> String {
    let x = Ext::<C>::NONE;
    let mut o = String::new();
    head::<C>(script, &mut o);
    let mut cur: Option<C> = None;
    let mut kept: Option<C> = None;
    for (i, op) in script.get("ops").arr().iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        if op.get("op").str() == "new" {
            open(op, &mut o);
            cur = new(op, &mut o);
            if let Some(c) = &cur {
                observe(c, &mut o);
            }
            o.push('}');
        } else {
            let Some(c) = cur.take() else { panic!("script: nothing to operate on") };
            cur = read_op(c, op, &x, &mut kept, &mut o);
        }
        if cur.is_none() {
            break;
        }
    }
    o.push_str("]}");
    o
}

/// One mutating event on a growable collection.
pub fn write_op<C: Rw>(c: &mut C, op: &J, o: &mut String) {
    open(op, o);
    let mut fired = false;
    let n = if op.get("n").is_null() { 0 } else { op.get("n").size() };
    let g0;
    let r = match op.get("op").str() {
        "ext" => {
            let s = src::<C::Owned>(op);
            g0 = tracked::grows();
            guard(|| {
                c.extend(s);
                true
            })
        }
        "tryext" => {
            let s = src::<C::Owned>(op);
            g0 = tracked::grows();
            fallible::<(), C::Alloc>(op, || c.try_extend(s), &mut fired).map(|x| x.is_some())
        }
        "trunc" => {
            g0 = tracked::grows();
            guard(|| {
                c.truncate(n);
                true
            })
        }
        "res" => {
            g0 = tracked::grows();
            guard(|| {
                crate::alloc::unbounded(|| c.reserve(n));
                true
            })
        }
        "tryres" => {
            g0 = tracked::grows();
            fallible::<(), C::Alloc>(op, || c.try_reserve(n), &mut fired).map(|x| x.is_some())
        }
        k => panic!("script: op {k}"),
    };
    outcome(o, &r);
    let _ = write!(o, ",\"fired\":{},\"grew\":{}", u8::from(fired), tracked::grows() - g0);
    observe(c, o);
    field(o, "aid", |o| {
        let _ = write!(o, "{}", c.allocator().id());
    });
    o.push('}');
}

/// Executes the mutating part of a script; used by other runners too.
pub fn build<C: Rw>(ops: &[J], o: &mut String) -> Option<C> {
    build_with(ops, &Ext::NONE, o)
}
fn build_with<C: Rw>(ops: &[J], x: &Ext<C>, o: &mut String) -> Option<C> {
    let mut cur: Option<C> = None;
    let mut kept: Option<C> = None;
    for (i, op) in ops.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        match op.get("op").str() {
            "new" => {
                open(op, o);
                cur = construct::<C>(op, o);
                if let Some(c) = &cur {
                    observe(c, o);
                    field(o, "aid", |o| {
                        let _ = write!(o, "{}", c.allocator().id());
                    });
                }
                o.push('}');
            }
            "iter" | "into" | "parts" | "row" | "eq" | "clone" | "swap" => {
                let Some(c) = cur.take() else { panic!("script: nothing to operate on") };
                cur = read_op(c, op, x, &mut kept, o);
            }
            _ => {
                let Some(c) = cur.as_mut() else { panic!("script: nothing to operate on") };
                write_op(c, op, o);
            }
        }
        if cur.is_none() {
            break;
        }
    }
    cur
}

pub fn run_rw<C: Rw>(script: &J) -> String {
    rw_with(script, &Ext::<C>::NONE)
}
pub fn rw_rows<C: Rw>(script: &J) -> String
where
    for<'a> C::View<'a>: Row,
{
    rw_with(script, &Ext::<C>::ROWS)
}
pub fn rw_eq<C: Rw>(script: &J) -> String
where
    for<'a> C::View<'a>: RowEq,
{
    rw_with(script, &Ext::<C>::EQ)
}
pub fn rw_clone<C: Rw + Clone>(script: &J) -> String {
    rw_with(script, &Ext::<C>::CLONE)
}
fn rw_with<C: Rw>(script: &J, x: &Ext<C>) -> String {
    let mut o = String::new();
    head::<C>(script, &mut o);
    build_with::<C>(script.get("ops").arr(), x, &mut o);
    o.push_str("]}");
    o
}

pub fn enc_items<T: Enc>(v: &[T]) -> String {
    let mut s = String::new();
    enc_seq(v.iter(), &mut s);
    s
}

#[allow(dead_code)]
fn _bounds<C: CollectionAllocIn>() {}
