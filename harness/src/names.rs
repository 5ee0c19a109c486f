//! Independent recognisers for the grammars of JVMS 4.2 and 4.3 over the decoded name (UTF-8).
//! `Tri::Either` marks names on which the specification and the library's documented
//! strictness legitimately differ (see DESIGN.md, "unspecified inputs").

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    Either,
}

/// 4.2.2 unqualified name of a field, local variable, formal parameter or class segment
pub fn unqualified(n: &[u8]) -> bool {
    if n.is_empty() {
        return false;
    }
    for &c in n {
        if c == b'.' || c == b';' || c == b'[' || c == b'/' {
            return false;
        }
    }
    true
}

/// 4.2.2 method name: `<init>` / `<clinit>` where allowed, otherwise no `<` or `>`
pub fn method_name(n: &[u8], init: bool, clinit: bool) -> bool {
    if !unqualified(n) {
        return false;
    }
    let mut angle = false;
    for &c in n {
        if c == b'<' || c == b'>' {
            angle = true;
        }
    }
    if !angle {
        return true;
    }
    (init && n == b"<init>") || (clinit && n == b"<clinit>")
}

/// 4.2.1 binary name in internal form
pub fn binary_name(n: &[u8]) -> bool {
    let mut seg = 0usize;
    for &c in n {
        match c {
            b'/' => {
                if seg == 0 {
                    return false;
                }
                seg = 0;
            }
            b'.' | b';' | b'[' => return false,
            _ => seg += 1,
        }
    }
    seg > 0
}

/// a `ClassName`: a binary name; names with angle brackets are unspecified
pub fn class_name(n: &[u8]) -> Tri {
    if !binary_name(n) {
        return Tri::No;
    }
    for &c in n {
        if c == b'<' || c == b'>' {
            return Tri::Either;
        }
    }
    Tri::Yes
}

/// 4.2.3 module name: no control characters, `@` `:` `\` only behind a backslash
pub fn module_name(n: &[u8]) -> bool {
    let mut i = 0;
    while i < n.len() {
        let c = n[i];
        if c < 0x20 || c == b'@' || c == b':' {
            return false;
        }
        if c == b'\\' {
            i += 1;
            if i >= n.len() || !(n[i] == b'\\' || n[i] == b'@' || n[i] == b':') {
                return false;
            }
        }
        i += 1;
    }
    true
}

/// Result of scanning one field descriptor at `d[i..]`.
#[derive(Clone, Copy, Debug)]
pub struct FieldD {
    pub dims: usize,
    /// base type character, `L` for a class type
    pub base: u8,
    /// class name range for `L`
    pub cls: (usize, usize),
    pub end: usize,
    pub either: bool,
}

/// 4.3.2 field descriptor starting at `i` (at most 255 dimensions)
pub fn field_at(d: &[u8], mut i: usize) -> Option<FieldD> {
    let mut dims = 0;
    while i < d.len() && d[i] == b'[' {
        dims += 1;
        i += 1;
    }
    if dims > 255 || i >= d.len() {
        return None;
    }
    let base = d[i];
    match base {
        b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' => {
            Some(FieldD { dims, base, cls: (0, 0), end: i + 1, either: false })
        }
        b'L' => {
            let st = i + 1;
            let mut e = st;
            while e < d.len() && d[e] != b';' {
                e += 1;
            }
            if e >= d.len() {
                return None;
            }
            match class_name(&d[st..e]) {
                Tri::No => None,
                t => Some(FieldD { dims, base, cls: (st, e), end: e + 1, either: t == Tri::Either }),
            }
        }
        _ => None,
    }
}

/// a complete field descriptor
pub fn field_desc(d: &[u8]) -> Option<FieldD> {
    match field_at(d, 0) {
        Some(f) if f.end == d.len() => Some(f),
        _ => None,
    }
}

pub struct MethodD {
    pub params: Vec<FieldD>,
    /// None is void
    pub ret: Option<FieldD>,
    pub either: bool,
}

/// 4.3.3 method descriptor
pub fn method_desc(d: &[u8]) -> Option<MethodD> {
    if d.is_empty() || d[0] != b'(' {
        return None;
    }
    let mut i = 1;
    let mut m = MethodD { params: Vec::new(), ret: None, either: false };
    loop {
        if i >= d.len() {
            return None;
        }
        if d[i] == b')' {
            break;
        }
        let f = field_at(d, i)?;
        i = f.end;
        m.either |= f.either;
        m.params.push(f);
    }
    i += 1;
    if i + 1 == d.len() && d[i] == b'V' {
        return Some(m);
    }
    let f = field_at(d, i)?;
    if f.end != d.len() {
        return None;
    }
    m.either |= f.either;
    m.ret = Some(f);
    Some(m)
}

/// Is `b` well-formed UTF-8 (Unicode table 3-7)?
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
            continue;
        }
        if c < 0xC2 || c > 0xF4 {
            return false;
        }
        let n = if c < 0xE0 { 1 } else if c < 0xF0 { 2 } else { 3 };
        if i + n >= b.len() {
            return false;
        }
        let s = b[i + 1];
        let lo = if c == 0xE0 { 0xA0 } else if c == 0xF0 { 0x90 } else { 0x80 };
        let hi = if c == 0xED { 0x9F } else if c == 0xF4 { 0x8F } else { 0xBF };
        if s < lo || s > hi {
            return false;
        }
        let mut k = 2;
        while k <= n {
            if b[i + k] & 0xC0 != 0x80 {
                return false;
            }
            k += 1;
        }
        i += n + 1;
    }
    true
}

/// 4.4.7 modified UTF-8 to UTF-8; None if malformed or if a surrogate is unpaired
pub fn mutf8(b: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == 0 {
            return None;
        }
        if c < 0x80 {
            out.push(c);
            i += 1;
            continue;
        }
        let unit = |i: usize| -> Option<(u32, usize)> {
            let c = b[i];
            if c & 0xE0 == 0xC0 {
                if i + 1 >= b.len() || b[i + 1] & 0xC0 != 0x80 {
                    return None;
                }
                Some((((c & 0x1F) as u32) << 6 | (b[i + 1] & 0x3F) as u32, 2))
            } else if c & 0xF0 == 0xE0 {
                if i + 2 >= b.len() || b[i + 1] & 0xC0 != 0x80 || b[i + 2] & 0xC0 != 0x80 {
                    return None;
                }
                Some((((c & 0x0F) as u32) << 12 | ((b[i + 1] & 0x3F) as u32) << 6 | (b[i + 2] & 0x3F) as u32, 3))
            } else {
                None
            }
        };
        let (u, n) = unit(i)?;
        // shortest form only, except that U+0000 is written as C0 80
        if n == 2 && u < 0x80 && u != 0 {
            return None;
        }
        if n == 3 && u < 0x800 {
            return None;
        }
        i += n;
        if u >= 0xD800 && u <= 0xDFFF {
            if u >= 0xDC00 || i >= b.len() || b[i] != 0xED {
                return None;
            }
            let (v, m) = unit(i)?;
            if v < 0xDC00 || v > 0xDFFF {
                return None;
            }
            i += m;
            let c = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
            out.push(0xF0 | (c >> 18) as u8);
            out.push(0x80 | (c >> 12 & 0x3F) as u8);
            out.push(0x80 | (c >> 6 & 0x3F) as u8);
            out.push(0x80 | (c & 0x3F) as u8);
        } else if u < 0x80 {
            out.push(u as u8);
        } else if u < 0x800 {
            out.push(0xC0 | (u >> 6) as u8);
            out.push(0x80 | (u & 0x3F) as u8);
        } else {
            out.push(0xE0 | (u >> 12) as u8);
            out.push(0x80 | (u >> 6 & 0x3F) as u8);
            out.push(0x80 | (u & 0x3F) as u8);
        }
    }
    Some(out)
}
