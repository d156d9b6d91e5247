//! Minimal JSON: parser for scripts, string builder for traces.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

pub static NULL: J = J::Null;

impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i);
        ws(b, &mut i);
        assert!(i == b.len(), "trailing input in script");
        v
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("script: expected string, got {self:?}"),
        }
    }
    pub fn str_or<'a>(&'a self, d: &'a str) -> &'a str {
        match self {
            J::Str(s) => s,
            _ => d,
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("script: expected number, got {self:?}"),
        }
    }
    pub fn num_or(&self, d: i64) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => d,
        }
    }
    pub fn bool_or(&self, d: bool) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => d,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            J::Null => &[],
            _ => panic!("script: expected array, got {self:?}"),
        }
    }
    /// Sizes: plain numbers, or negative codes for values near the top of usize.
    pub fn size(&self) -> usize {
        let n = self.num();
        match n {
            -1 => usize::MAX,
            -2 => usize::MAX - 1,
            -3 => usize::MAX / 2,
            -4 => usize::MAX / 2 + 1,
            -5 => usize::MAX / 3 + 1,
            -6 => isize::MAX as usize,
            -7 => usize::MAX - 7,
            -8 => usize::MAX / 8 + 1,
            _ => usize::try_from(n).expect("size"),
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                let _ = write!(o, "{n}");
            }
            J::Str(s) => quote(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

/// A usize as TLC can hold it: values beyond 2^31 become -1.
pub fn num(n: usize, o: &mut String) {
    if n > 0x7fff_fff0 {
        o.push_str("-1");
    } else {
        let _ = write!(o, "{n}");
    }
}

/// Signed 64-bit values: small ones as they are, listed extreme ones as codes
/// of magnitude 2*10^9 and more that keep their order.
pub const EXTREME: [i64; 11] =
    [i32::MAX as i64, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 61, 1 << 62, (1 << 62) + 1, (1 << 62) + 2, i64::MAX - 1, i64::MAX];
pub const EXTREME_NEG: [i64; 11] = [
    i32::MIN as i64, -(1 << 31) - 1, -(1 << 32), -(1 << 32) - 1, -(1 << 40), -(1 << 61), -(1 << 62), -(1 << 62) - 1, -(1 << 62) - 2, i64::MIN + 1, i64::MIN,
];
pub const CODE: i64 = 2_000_000_000;
pub fn from_code(n: i64) -> i64 {
    if n >= CODE {
        EXTREME[usize::try_from(n - CODE).unwrap()]
    } else if n <= -CODE {
        EXTREME_NEG[usize::try_from(-n - CODE).unwrap()]
    } else {
        n
    }
}
pub fn to_code(n: i64) -> i64 {
    if let Some(i) = EXTREME.iter().position(|x| *x == n) {
        CODE + i as i64
    } else if let Some(i) = EXTREME_NEG.iter().position(|x| *x == n) {
        -CODE - i as i64
    } else if n.abs() < 1_000_000_000 {
        n
    } else {
        -1_999_999_999
    }
}

pub fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(m);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let J::Str(k) = val(b, i) else { panic!("json key") };
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                let v = val(b, i);
                m.insert(k, v);
            }
        }
        b'[' => {
            *i += 1;
            let mut a = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(a);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                a.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    s.push(match b[*i] {
                        b'n' => b'\n',
                        c => c,
                    });
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::Str(String::from_utf8(s).expect("utf8"))
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("number"))
        }
    }
}
