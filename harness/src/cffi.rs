//! The Arrow C Data Interface as a C consumer and producer sees it: mirrors of
//! the two structures, a consumer that reads them by their format strings
//! alone, and a foreign producer that builds them from descriptions.
use crate::json::{J, from_code, quote, to_code};
use crate::phys::place;
use crate::val::Enc;
use std::ffi::{CStr, CString, c_char, c_void};
use std::fmt::Write;
use std::sync::atomic::{AtomicI64, Ordering};

#[repr(C)]
pub struct CArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const c_void,
    pub children: *mut *mut CArray,
    pub dictionary: *mut CArray,
    pub release: Option<unsafe extern "C" fn(*mut CArray)>,
    pub private_data: *mut c_void,
}
#[repr(C)]
pub struct CSchema {
    pub format: *const c_char,
    pub name: *const c_char,
    pub metadata: *const c_char,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut CSchema,
    pub dictionary: *mut CSchema,
    pub release: Option<unsafe extern "C" fn(*mut CSchema)>,
    pub private_data: *mut c_void,
}

/// Formats of the nodes of an exported array, outermost first.
pub type Formats = Vec<String>;

fn sane(n: i64) -> usize {
    usize::try_from(n).unwrap_or(0).min(1 << 20)
}

/// Prints a schema tree.
pub fn dump_schema(s: &CSchema, o: &mut String) {
    if s.release.is_none() {
        o.push_str("{\"rel\":1}");
        return;
    }
    o.push_str("{\"rel\":0,\"fmt\":");
    text(s.format, o);
    o.push_str(",\"name\":");
    text(s.name, o);
    let _ = write!(
        o,
        ",\"meta\":{},\"fl\":{},\"nch\":{},\"dict\":{},\"ct\":{},\"ch\":[",
        u8::from(!s.metadata.is_null()),
        to_code(s.flags),
        to_code(s.n_children),
        u8::from(!s.dictionary.is_null()),
        u8::from(!s.children.is_null())
    );
    if !s.children.is_null() {
        for i in 0..sane(s.n_children).min(4) {
            if i > 0 {
                o.push(',');
            }
            let c = unsafe { *s.children.add(i) };
            if c.is_null() {
                o.push_str("{\"rel\":2}");
            } else {
                dump_schema(unsafe { &*c }, o);
            }
        }
    }
    o.push_str("]}");
}
fn text(p: *const c_char, o: &mut String) {
    o.push('[');
    if !p.is_null() {
        quote(&unsafe { CStr::from_ptr(p) }.to_string_lossy(), o);
    }
    o.push(']');
}
pub fn formats(s: &CSchema, f: &mut Formats) {
    let mut t = String::new();
    if !s.format.is_null() {
        t = unsafe { CStr::from_ptr(s.format) }.to_string_lossy().into_owned();
    }
    f.push(t);
    if s.release.is_some() && s.n_children == 1 && !s.children.is_null() {
        let c = unsafe { *s.children };
        if !c.is_null() {
            formats(unsafe { &*c }, f);
        }
    }
}

fn values<T: Enc>(p: *const c_void, n: usize, o: &mut String) {
    o.push('[');
    for i in 0..n {
        if i > 0 {
            o.push(',');
        }
        let v: T = unsafe { p.cast::<T>().add(i).read_unaligned() };
        v.enc(o);
    }
    o.push(']');
    note(p, n * size_of::<T>());
}
fn numbers<T: Into<i64> + Copy>(p: *const c_void, n: usize, o: &mut String) {
    o.push('[');
    for i in 0..n {
        if i > 0 {
            o.push(',');
        }
        let v: T = unsafe { p.cast::<T>().add(i).read_unaligned() };
        let _ = write!(o, "{}", to_code(v.into()));
    }
    o.push(']');
    note(p, n * size_of::<T>());
}
thread_local! {
    static READ: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn note(p: *const c_void, n: usize) {
    READ.with(|r| r.borrow_mut().push((p as usize, n)));
}
/// Buffers read by array dumps since the last call.
pub fn take_read() -> Vec<(usize, usize)> {
    READ.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

/// Prints an array tree, reading its buffers as the formats say.
pub fn dump_array(a: &CArray, f: &[String], o: &mut String) {
    if a.release.is_none() {
        o.push_str("{\"rel\":1}");
        return;
    }
    let fmt = f.first().map_or("", String::as_str);
    let _ = write!(
        o,
        "{{\"rel\":0,\"len\":{},\"nc\":{},\"off\":{},\"nb\":{},\"nch\":{},\"dict\":{},\"bt\":{},\"ct\":{},\"bufs\":[",
        to_code(a.length),
        to_code(a.null_count),
        to_code(a.offset),
        to_code(a.n_buffers),
        to_code(a.n_children),
        u8::from(!a.dictionary.is_null()),
        u8::from(!a.buffers.is_null()),
        u8::from(!a.children.is_null())
    );
    let n = sane(a.length);
    if !a.buffers.is_null() {
        for i in 0..sane(a.n_buffers).min(4) {
            if i > 0 {
                o.push(',');
            }
            o.push('[');
            let p = unsafe { *a.buffers.add(i) };
            if !p.is_null() {
                let _ = write!(o, "{{\"mis\":{},\"v\":", p as usize % 16);
                match (i, fmt) {
                    (0, _) | (1, "b") => numbers::<u8>(p, n.div_ceil(8), o),
                    (1, "c") => values::<i8>(p, n, o),
                    (1, "C") => values::<u8>(p, n, o),
                    (1, "s") => values::<i16>(p, n, o),
                    (1, "S") => values::<u16>(p, n, o),
                    (1, "i") => values::<i32>(p, n, o),
                    (1, "I") => values::<u32>(p, n, o),
                    (1, "l") => values::<i64>(p, n, o),
                    (1, "L") => values::<u64>(p, n, o),
                    (1, "f") => values::<f32>(p, n, o),
                    (1, "g") => values::<f64>(p, n, o),
                    (1, "+l") => numbers::<i32>(p, n + 1, o),
                    (1, "+L") => numbers::<i64>(p, n + 1, o),
                    _ => o.push_str("[]"),
                }
                o.push('}');
            }
            o.push(']');
        }
    }
    o.push_str("],\"ch\":[");
    if !a.children.is_null() {
        for i in 0..sane(a.n_children).min(4) {
            if i > 0 {
                o.push(',');
            }
            let c = unsafe { *a.children.add(i) };
            if c.is_null() {
                o.push_str("{\"rel\":2}");
            } else {
                dump_array(unsafe { &*c }, f.get(1..).unwrap_or(&[]), o);
            }
        }
    }
    o.push_str("]}");
}

// ------------------------------------------------------------ the producer
static RELEASES: AtomicI64 = AtomicI64::new(0);
unsafe extern "C" fn release_a(a: *mut CArray) {
    RELEASES.fetch_add(1, Ordering::SeqCst);
    unsafe { (*a).release = None };
}
unsafe extern "C" fn release_s(s: *mut CSchema) {
    RELEASES.fetch_add(1, Ordering::SeqCst);
    unsafe { (*s).release = None };
}

unsafe extern "C" {
    fn mmap(p: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(p: *mut c_void, n: usize, prot: i32) -> i32;
}
const PAGE: usize = 1 << 16;
const PAGES: usize = 256;
/// Memory whose every page is followed by one that cannot be touched: reading
/// past the end of a foreign buffer ends the process.
struct Pages {
    base: usize,
    used: std::cell::Cell<usize>,
}
thread_local! {
    static GUARDED: Pages = Pages::new();
}
impl Pages {
    fn new() -> Self {
        let n = 2 * PAGES * PAGE;
        let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x22, -1, 0) } as usize;
        if p == usize::MAX {
            return Self { base: 0, used: std::cell::Cell::new(PAGES) };
        }
        for i in 0..PAGES {
            let r = unsafe { mprotect((p + (2 * i + 1) * PAGE) as *mut c_void, PAGE, 0) };
            assert!(r == 0, "guard page");
        }
        Self { base: p, used: std::cell::Cell::new(0) }
    }
    /// `n` bytes that end at (or, misaligned, just before) an untouchable page.
    fn take(&self, n: usize, item: usize, skew: usize) -> Option<*mut u8> {
        let i = self.used.get();
        if i == PAGES || n + 32 > PAGE {
            return None;
        }
        self.used.set(i + 1);
        let end = self.base + (2 * i + 1) * PAGE;
        let mut p = end - n;
        if skew != 0 || p % item != 0 {
            p = (p - skew) / 16 * 16 + skew;
        }
        Some(p as *mut u8)
    }
}

/// Foreign structures and everything they point to.
#[derive(Default)]
pub struct Foreign {
    arrays: Vec<Box<CArray>>,
    schemas: Vec<Box<CSchema>>,
    tables: Vec<Vec<*mut c_void>>,
    buffers: Vec<Vec<u128>>,
    filled: Vec<(usize, usize)>,
    names: Vec<CString>,
    shot: Vec<(usize, Vec<u8>)>,
    base: i64,
}
const WILD: usize = 8; // never a valid pointer

fn wild<T>() -> *mut T {
    WILD as *mut T
}

impl Foreign {
    pub fn root_array(&self) -> *const CArray {
        &**self.arrays.last().unwrap()
    }
    pub fn root_schema(&self) -> *const CSchema {
        &**self.schemas.last().unwrap()
    }

    fn buffer(&mut self, j: &J, item: usize, fill: impl Fn(&mut [u8], &J)) -> *const c_void {
        if j.is_null() {
            return std::ptr::null();
        }
        let vs = j.get("v").arr();
        let n = vs.len() * item;
        let skew = usize::try_from(j.get("mis").num_or(0)).unwrap();
        let base = GUARDED.with(|g| g.take(n, item, skew)).unwrap_or_else(|| {
            let mut b = vec![0u128; (n + 16) / 16 + 2];
            let p = b.as_mut_ptr().cast::<u8>();
            self.buffers.push(b);
            unsafe { p.add(skew) }
        });
        let bytes = unsafe { std::slice::from_raw_parts_mut(base, n) };
        for (i, v) in vs.iter().enumerate() {
            fill(&mut bytes[i * item..(i + 1) * item], v);
        }
        self.filled.push((base as usize, n));
        place::expect_at(base, n);
        base.cast_const().cast()
    }

    fn values(&mut self, j: &J, fmt: &str) -> *const c_void {
        use crate::val::Dec;
        macro_rules! go {
            ($t:ty) => {
                self.buffer(j, size_of::<$t>(), |b, v| b.copy_from_slice(&<$t>::dec(v).to_ne_bytes()))
            };
        }
        match fmt {
            "c" => go!(i8),
            "C" => go!(u8),
            "s" => go!(i16),
            "S" => go!(u16),
            "i" => go!(i32),
            "I" => go!(u32),
            "l" => go!(i64),
            "L" => go!(u64),
            "f" => go!(f32),
            "g" => go!(f64),
            "+l" => self.buffer(j, 4, |b, v| b.copy_from_slice(&i32::try_from(from_code(v.num())).unwrap().to_ne_bytes())),
            "+L" => self.buffer(j, 8, |b, v| b.copy_from_slice(&from_code(v.num()).to_ne_bytes())),
            _ => self.buffer(j, 1, |b, v| b[0] = u8::try_from(v.num()).unwrap()),
        }
    }

    fn table(&mut self, v: Vec<*mut c_void>) -> *mut c_void {
        self.tables.push(v);
        self.tables.last_mut().unwrap().as_mut_ptr().cast()
    }

    /// `f`: the true formats of the nodes, which say how to fill buffers.
    pub fn array(&mut self, j: &J, f: &[String]) -> *mut CArray {
        let mut a = Box::new(CArray {
            length: 77,
            null_count: 78,
            offset: 79,
            n_buffers: 80,
            n_children: 81,
            buffers: wild(),
            children: wild(),
            dictionary: wild(),
            release: None,
            private_data: wild(),
        });
        if j.get("rel").num() == 0 {
            a.length = from_code(j.get("len").num());
            a.null_count = from_code(j.get("nc").num());
            a.offset = from_code(j.get("off").num());
            a.n_buffers = from_code(j.get("nb").num());
            a.n_children = from_code(j.get("nch").num());
            a.dictionary = if j.get("dict").num() == 1 { wild() } else { std::ptr::null_mut() };
            a.release = Some(release_a);
            a.buffers = if j.get("bt").num() == 0 {
                std::ptr::null_mut()
            } else {
                let bufs = j.get("bufs").arr();
                let mut t: Vec<*mut c_void> = Vec::new();
                if let Some(b) = bufs.first() {
                    let p = self.values(b.arr().first().unwrap_or(&crate::json::NULL), "bits");
                    t.push(p.cast_mut());
                }
                if let Some(b) = bufs.get(1) {
                    let p = self.values(b.arr().first().unwrap_or(&crate::json::NULL), &f[0]);
                    t.push(p.cast_mut());
                }
                t.resize(4, std::ptr::null_mut());
                self.table(t).cast()
            };
            a.children = if j.get("ct").num() == 0 {
                std::ptr::null_mut()
            } else {
                let mut t: Vec<*mut c_void> = Vec::new();
                for c in j.get("ch").arr() {
                    t.push(if c.get("rel").num() == 2 {
                        std::ptr::null_mut()
                    } else {
                        self.array(c, f.get(1..).unwrap_or(&[])).cast()
                    });
                }
                t.resize(4, std::ptr::null_mut());
                self.table(t).cast()
            };
        }
        let p: *mut CArray = &mut *a;
        self.arrays.push(a);
        p
    }

    pub fn schema(&mut self, j: &J) -> *mut CSchema {
        let mut s = Box::new(CSchema {
            format: wild(),
            name: wild(),
            metadata: wild(),
            flags: 82,
            n_children: 83,
            children: wild(),
            dictionary: wild(),
            release: None,
            private_data: wild(),
        });
        if j.get("rel").num() == 0 {
            s.format = std::ptr::null();
            s.name = std::ptr::null();
            s.metadata = std::ptr::null();
            if let Some(t) = j.get("fmt").arr().first() {
                let c = CString::new(t.str()).unwrap();
                s.format = c.as_ptr();
                self.names.push(c);
            }
            if let Some(t) = j.get("name").arr().first() {
                let c = CString::new(t.str()).unwrap();
                s.name = c.as_ptr();
                self.names.push(c);
            }
            s.flags = from_code(j.get("fl").num());
            s.n_children = from_code(j.get("nch").num());
            s.dictionary = if j.get("dict").num() == 1 { wild() } else { std::ptr::null_mut() };
            s.release = Some(release_s);
            s.children = if j.get("ct").num() == 0 {
                std::ptr::null_mut()
            } else {
                let mut t: Vec<*mut c_void> = Vec::new();
                for c in j.get("ch").arr() {
                    t.push(if c.get("rel").num() == 2 { std::ptr::null_mut() } else { self.schema(c).cast() });
                }
                t.resize(4, std::ptr::null_mut());
                self.table(t).cast()
            };
        }
        let p: *mut CSchema = &mut *s;
        self.schemas.push(s);
        p
    }

    fn memory(&self) -> Vec<(usize, usize)> {
        let mut m: Vec<(usize, usize)> = Vec::new();
        m.extend(self.arrays.iter().map(|x| (&raw const **x as usize, size_of::<CArray>())));
        m.extend(self.schemas.iter().map(|x| (&raw const **x as usize, size_of::<CSchema>())));
        m.extend(self.tables.iter().map(|x| (x.as_ptr() as usize, x.len() * 8)));
        m.extend(self.filled.iter().copied());
        m.extend(self.names.iter().map(|x| (x.as_ptr() as usize, x.as_bytes().len() + 1)));
        m
    }
    fn bytes(p: usize, n: usize) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(p as *const u8, n) }.to_vec()
    }
    /// Remembers the memory as it is now.
    pub fn snapshot(&mut self) {
        self.base = RELEASES.load(Ordering::SeqCst);
        self.shot = self.memory().into_iter().map(|(p, n)| (p, Self::bytes(p, n))).collect();
    }
    /// Unmodified and unreleased since the snapshot.
    pub fn untouched(&self) -> bool {
        RELEASES.load(Ordering::SeqCst) == self.base && self.shot.iter().all(|(p, b)| Self::bytes(*p, b.len()) == *b)
    }
}

impl Drop for Foreign {
    fn drop(&mut self) {
        for (p, n) in &self.filled {
            unsafe { std::ptr::write_bytes(*p as *mut u8, 0xA5, *n) };
        }
        GUARDED.with(|g| g.used.set(if g.base == 0 { PAGES } else { 0 }));
    }
}
