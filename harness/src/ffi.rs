//! Executes scripts on arrays crossing the Arrow C Data Interface.
use crate::alloc;
use crate::cffi::{CArray, CSchema, Foreign, Formats, dump_array, dump_schema, formats, take_read};
use crate::json::{J, quote, to_code};
use crate::phys::{Refused, Store, offsets_error, place};
use crate::run::{Ro, guard, head, new_phys, observe, open};
use crate::val::take_anomalies;
use narrow::array::Array;
use narrow::buffer::{Buffer, SliceBuffer};
use narrow::layout::ArrayItem;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::Nullability;
use narrow_ffi::{ArrowArray, ArrowSchema, Export, ExportError, Import, ImportError};
use std::fmt::Write;

type Sl = SliceBuffer<'static>;
const _: () = assert!(size_of::<CArray>() == size_of::<ArrowArray>() && size_of::<CSchema>() == size_of::<ArrowSchema>());

/// How arrays of a subject are built.
pub type Builder<C> = fn(&[J], &mut String) -> Option<C>;
type Exporter<C> = fn(C) -> Result<(ArrowArray, ArrowSchema), ExportError>;
type Importer<I> = unsafe fn(&'static ArrowArray, &ArrowSchema) -> Result<I, ImportError>;
/// An exportable type and what it is imported as.
pub struct Crossing<C, I> {
    pub build: Builder<C>,
    pub export: Exporter<C>,
    pub import: Importer<I>,
    pub inline: bool,
    pub borrowed: bool,
}

pub fn build_ro<C: Ro>(ops: &[J], o: &mut String) -> Option<C> {
    let mut cur = None;
    for (i, op) in ops.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        open(op, o);
        cur = new_phys::<C>(op, o);
        o.push_str(",\"fired\":0,\"grew\":0");
        if let Some(c) = &cur {
            observe(c, o);
        }
        o.push('}');
    }
    cur
}

fn import_error(e: &ImportError, o: &mut String) {
    let u = |n: usize| i64::try_from(n).unwrap_or(i64::MAX);
    let (k, f): (String, Vec<i64>) = match *e {
        ImportError::ReleasedArray => ("ReleasedArray".into(), vec![]),
        ImportError::ReleasedSchema => ("ReleasedSchema".into(), vec![]),
        ImportError::MissingFormat => ("MissingFormat".into(), vec![]),
        ImportError::UnexpectedFormat => ("UnexpectedFormat".into(), vec![]),
        ImportError::UnexpectedFlags { flags } => ("UnexpectedFlags".into(), vec![flags]),
        ImportError::InvalidLength { length } => ("InvalidLength".into(), vec![length]),
        ImportError::NonZeroOffset { offset } => ("NonZeroOffset".into(), vec![offset]),
        ImportError::UnexpectedNullCount { null_count } => ("UnexpectedNullCount".into(), vec![null_count]),
        ImportError::MissingValidityBuffer => ("MissingValidityBuffer".into(), vec![]),
        ImportError::NullCountMismatch { declared, actual } => ("NullCountMismatch".into(), vec![declared, u(actual)]),
        ImportError::UnexpectedBufferCount { count } => ("UnexpectedBufferCount".into(), vec![count]),
        ImportError::UnexpectedChildCount { array, schema } => ("UnexpectedChildCount".into(), vec![array, schema]),
        ImportError::UnexpectedDictionary => ("UnexpectedDictionary".into(), vec![]),
        ImportError::MissingBufferPointers => ("MissingBufferPointers".into(), vec![]),
        ImportError::MissingArrayChildren => ("MissingArrayChildren".into(), vec![]),
        ImportError::MissingSchemaChildren => ("MissingSchemaChildren".into(), vec![]),
        ImportError::UnsupportedFixedSizeListSize { size } => ("UnsupportedFixedSizeListSize".into(), vec![u(size)]),
        ImportError::FixedSizeListLengthMismatch { length, child_length, size } => {
            ("FixedSizeListLengthMismatch".into(), vec![u(length), u(child_length), u(size)])
        }
        ImportError::MissingOffsetsBuffer => ("MissingOffsetsBuffer".into(), vec![]),
        ImportError::MisalignedOffsetsBuffer { alignment } => ("MisalignedOffsetsBuffer".into(), vec![u(alignment)]),
        ImportError::InvalidOffsets { error } => match offsets_error(error) {
            Refused::Error(e, f) => {
                let f = f.iter().map(|n| if *n > 0x7fff_fff0 { -1 } else { u(*n) }).collect();
                (format!("InvalidOffsets.{e}"), f)
            }
            Refused::Unsupported => unreachable!(),
        },
        ImportError::MissingValuesBuffer => ("MissingValuesBuffer".into(), vec![]),
        ImportError::MisalignedValuesBuffer { alignment } => ("MisalignedValuesBuffer".into(), vec![u(alignment)]),
        _ => ("Unknown".into(), vec![]),
    };
    let _ = write!(o, ",\"err\":{{\"e\":\"{k}\",\"f\":[");
    for (i, n) in f.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, to_code(*n));
    }
    o.push_str("]}");
}

/// Imports a pair of structures; the result is observed by the caller.
///
/// # Safety
/// The structures meet the caller contract of `Import::import`.
unsafe fn import<I>(import: Importer<I>, a: *const CArray, s: *const CSchema, o: &mut String) -> Option<I> {
    let r = guard(|| {
        let (a, s) = unsafe { (&*a.cast::<ArrowArray>(), &*s.cast::<ArrowSchema>()) };
        unsafe { import(a, s) }
    });
    match r {
        Ok(Ok(x)) => {
            o.push_str(",\"res\":\"ok\",\"msg\":\"\",\"err\":{\"e\":\"\",\"f\":[]}");
            Some(x)
        }
        Ok(Err(e)) => {
            o.push_str(",\"res\":\"err\",\"msg\":");
            quote(&e.to_string(), o);
            import_error(&e, o);
            None
        }
        Err(m) => {
            o.push_str(",\"res\":\"panic\",\"msg\":");
            quote(&m, o);
            o.push_str(",\"err\":{\"e\":\"\",\"f\":[]}");
            None
        }
    }
}

/// The structures a consumer holds: the roots, and children moved out of them.
struct Held {
    a: Vec<Option<Box<CArray>>>,
    s: Vec<Option<Box<CSchema>>>,
    f: Formats,
    /// Live allocations made by the library.
    lib: i64,
    /// Where the array's buffers were before it was exported.
    home: Vec<(usize, usize)>,
    inline: bool,
}

impl Held {
    /// Library code: frees are quarantined, allocations accounted.
    fn lib<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let l = alloc::live();
        let r = alloc::quarantined(f);
        self.lib += alloc::live() - l;
        r
    }

    fn dump(&self, o: &mut String) {
        o.push_str(",\"a\":[");
        let mut n = 0;
        for (i, x) in self.a.iter().enumerate() {
            if let Some(x) = x {
                let _ = write!(o, "{}{{\"i\":{i},\"d\":", if n > 0 { "," } else { "" });
                dump_array(x, self.f.get(i..).unwrap_or(&[]), o);
                o.push('}');
                n += 1;
            }
        }
        o.push_str("],\"s\":[");
        n = 0;
        for (i, x) in self.s.iter().enumerate() {
            if let Some(x) = x {
                let _ = write!(o, "{}{{\"i\":{i},\"d\":", if n > 0 { "," } else { "" });
                dump_schema(x, o);
                o.push('}');
                n += 1;
            }
        }
        let read = take_read();
        let there = self.inline || read.iter().all(|(p, n)| *n == 0 || self.home.iter().any(|(q, m)| p == q && n <= m));
        let _ = write!(o, "],\"home\":{},\"lib\":{}", u8::from(there), self.lib);
    }
}

fn level(op: &J) -> usize {
    usize::try_from(op.get("i").num()).unwrap()
}

macro_rules! node_ops {
    ($name:ident, $c:ty, $lib:ty, $field:ident) => {
        fn $name(h: &mut Held, op: &J, o: &mut String) {
            let i = level(op);
            match op.get("op").str() {
                "move" => {
                    let old = h.$field[i].take().expect("script: held");
                    let new = Box::new(unsafe { std::ptr::read(&*old) });
                    // The old place no longer is the structure.
                    let mut old = old;
                    unsafe { std::ptr::write_bytes(&mut *old, 0xA5, 1) };
                    std::mem::forget(std::mem::replace(&mut h.$field[i], Some(new)));
                    drop(unsafe { Box::from_raw(Box::into_raw(old).cast::<std::mem::MaybeUninit<$c>>()) });
                }
                "out" => {
                    let j = (0..i).rev().find(|j| h.$field[*j].is_some()).expect("script: parent");
                    let mut p: *mut $c = &mut **h.$field[j].as_mut().unwrap();
                    for _ in j..i {
                        p = unsafe { *(*p).children };
                    }
                    let c = Box::new(unsafe { std::ptr::read(p) });
                    assert!(c.release.is_some(), "script: moving out a released child");
                    unsafe { (*p).release = None };
                    h.$field[i] = Some(c);
                }
                "rel" => {
                    let mut b = h.$field[i].take().expect("script: held");
                    let p: *mut $c = &mut *b;
                    let f = b.release.expect("script: unreleased");
                    h.lib(|| unsafe { f(p) });
                    let _ = write!(o, ",\"gone\":{}", u8::from(b.release.is_none()));
                    h.$field[i] = Some(b);
                }
                "drop" => {
                    let b = h.$field[i].take().expect("script: held");
                    let x: $lib = unsafe { std::mem::transmute::<$c, $lib>(*b) };
                    h.lib(|| drop(x));
                }
                k => panic!("script: op {k}"),
            }
        }
    };
}
node_ops!(array_op, CArray, ArrowArray, a);
node_ops!(schema_op, CSchema, ArrowSchema, s);

fn is_build(op: &J) -> bool {
    !matches!(op.get("op").str(), "export" | "move" | "out" | "rel" | "drop" | "import" | "reread")
}

/// Arrays, through the public interface.
pub fn run<T, S>(script: &J, build: Builder<Array<T, S>>) -> String
where
    T: ArrayItem,
    S: Buffer + Store,
    Array<T, S>: Export + Ro,
    Array<T, Sl>: Import<'static> + Ro,
{
    cross(
        script,
        &Crossing {
            build,
            export: Array::<T, S>::export,
            import: Array::<T, Sl>::import,
            inline: S::INLINE,
            borrowed: S::BORROWED,
        },
    )
}

/// Large lists, which no array item selects, through the layout hook.
pub fn run_large<T, N, S>(script: &J, build: Builder<VariableSizeList<T, N, i64, S>>, export: Exporter<VariableSizeList<T, N, i64, S>>, import: Importer<VariableSizeList<T, N, i64, Sl>>) -> String
where
    T: ArrayItem,
    N: Nullability,
    S: Buffer + Store,
    VariableSizeList<T, N, i64, S>: Ro,
    VariableSizeList<T, N, i64, Sl>: Ro,
{
    cross(script, &Crossing { build, export, import, inline: S::INLINE, borrowed: S::BORROWED })
}

fn cross<C: Ro, I: Ro>(script: &J, x: &Crossing<C, I>) -> String {
    place::sole_owner();
    let mut o = String::new();
    head::<C>(script, &mut o);
    let ops = script.get("ops").arr();
    if ops.first().is_some_and(|x| x.get("op").str() == "foreign") {
        foreign::<I>(ops, x.import, &mut o);
        o.push_str("]}");
        return o;
    }
    // First use of thread-locals may allocate.
    drop((take_read(), place::take_seen(), take_anomalies()));
    alloc::flush();
    let cut = ops.iter().position(|x| !is_build(x)).unwrap_or(ops.len());
    let live = alloc::live();
    let c = (x.build)(&ops[..cut], &mut o);
    place::forget();
    drop((take_read(), place::take_seen(), take_anomalies()));
    let Some(c) = c else {
        o.push_str("]}");
        return o;
    };
    // Borrowed storage belongs to the harness, which does not free it.
    let own = if x.borrowed { 0 } else { alloc::live() - live };
    let mut h = Held { a: Vec::new(), s: Vec::new(), f: Vec::new(), lib: own, home: Vec::new(), inline: x.inline };
    let mut rest = ops[cut..].iter();
    let Some(op) = rest.next() else {
        o.push_str("]}");
        return o;
    };
    assert!(op.get("op").str() == "export");
    o.push(',');
    open(op, &mut o);
    o.push_str(",\"ph\":[");
    let mut ph = String::new();
    if guard(|| c.dump(&mut ph)).is_ok() {
        o.push_str(&ph);
    }
    o.push(']');
    h.home = place::take_seen();
    take_anomalies();
    let r = h.lib(|| guard(|| (x.export)(c)));
    match r {
        Ok(Ok((a, s))) => {
            o.push_str(",\"res\":\"ok\",\"msg\":\"\",\"err\":{\"e\":\"\",\"f\":[]}");
            let a = Box::new(unsafe { std::mem::transmute::<ArrowArray, CArray>(a) });
            let s = Box::new(unsafe { std::mem::transmute::<ArrowSchema, CSchema>(s) });
            formats(&s, &mut h.f);
            let n = h.f.len().max(8);
            h.a.resize_with(n, || None);
            h.s.resize_with(n, || None);
            h.a[0] = Some(a);
            h.s[0] = Some(s);
        }
        Ok(Err(e)) => {
            o.push_str(",\"res\":\"err\",\"msg\":");
            quote(&e.to_string(), &mut o);
            match e {
                ExportError::NonZeroOffset { offset } => {
                    let _ = write!(o, ",\"err\":{{\"e\":\"NonZeroOffset\",\"f\":[{offset}]}}");
                }
                _ => o.push_str(",\"err\":{\"e\":\"Unknown\",\"f\":[]}"),
            }
        }
        Err(m) => {
            o.push_str(",\"res\":\"panic\",\"msg\":");
            quote(&m, &mut o);
            o.push_str(",\"err\":{\"e\":\"\",\"f\":[]}");
        }
    }
    h.dump(&mut o);
    o.push('}');
    if h.a.is_empty() {
        // Nothing exported: nothing may remain.
        let _ = write!(o, ",{{\"op\":\"end\",\"lib\":{},\"twice\":{}}}]}}", h.lib, u8::from(alloc::flush()));
        place::reset();
        return o;
    }
    // From now on the exported memory is what importers must borrow.
    {
        let mut s = String::new();
        dump_array(h.a[0].as_ref().unwrap(), &h.f, &mut s);
        for (p, n) in take_read() {
            place::expect_at(p as *const u8, n);
        }
    }
    let mut imp: Vec<I> = Vec::new();
    for op in rest {
        o.push(',');
        open(op, &mut o);
        match op.get("op").str() {
            "import" => {
                let (a, s): (*const CArray, *const CSchema) = (&**h.a[0].as_ref().unwrap(), &**h.s[0].as_ref().unwrap());
                let before = alloc::live();
                let y = h.lib(|| unsafe { import(x.import, a, s, &mut o) });
                let _ = write!(o, ",\"delta\":{}", alloc::live() - before);
                if let Some(y) = y {
                    observe(&y, &mut o);
                    imp.push(y);
                }
            }
            "reread" => observe(&imp[level(op)], &mut o),
            _ => {
                if op.get("w").str() == "a" {
                    // What borrows an array ends before the array is touched.
                    for y in imp.drain(..) {
                        h.lib(|| drop(y));
                    }
                    array_op(&mut h, op, &mut o);
                } else {
                    schema_op(&mut h, op, &mut o);
                }
            }
        }
        h.dump(&mut o);
        o.push('}');
    }
    drop(imp);
    for i in 0..h.a.len() {
        if let Some(x) = h.a[i].take() {
            let x: ArrowArray = unsafe { std::mem::transmute(*x) };
            h.lib(|| drop(x));
        }
        if let Some(x) = h.s[i].take() {
            let x: ArrowSchema = unsafe { std::mem::transmute(*x) };
            h.lib(|| drop(x));
        }
    }
    let _ = write!(o, ",{{\"op\":\"end\",\"lib\":{},\"twice\":{}}}]}}", h.lib, u8::from(alloc::flush()));
    place::reset();
    o
}

/// Imports of structures made by a foreign producer.
fn foreign<I: Ro>(ops: &[J], f_import: Importer<I>, o: &mut String) {
    let mut l = String::new();
    I::layout(&mut l);
    let mut f = Vec::new();
    true_formats(&J::parse(&l), &mut f);
    for (i, op) in ops.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        place::reset();
        let mut p = Foreign::default();
        let other: Formats = op.get("fmts").arr().iter().map(|x| x.str().to_string()).collect();
        p.array(op.get("a"), if other.is_empty() { &f } else { &other });
        p.schema(op.get("s"));
        let (a, s) = (p.root_array(), p.root_schema());
        p.snapshot();
        open(op, o);
        let x = unsafe { import(f_import, a, s, o) };
        if let Some(x) = &x {
            observe(x, o);
        }
        drop(x);
        let _ = write!(o, ",\"untouched\":{}}}", u8::from(p.untouched()));
        place::reset();
    }
}
fn true_formats(l: &J, f: &mut Formats) {
    match l.get("k").str() {
        "null" => true_formats(l.get("c"), f),
        "prim" => f.push(l.get("f").str().to_string()),
        "bool" => f.push("b".into()),
        "fsl" => {
            f.push(format!("+w:{}", l.get("n").num()));
            true_formats(l.get("c"), f);
        }
        _ => {
            f.push(if l.get("w").str() == "32" { "+l" } else { "+L" }.into());
            true_formats(l.get("c"), f);
        }
    }
}
