//! Scenarios: the real parser on a partly symbolic input against the reference reader.
mod build;
mod code;
mod hooks;
mod model;
mod names;
#[cfg(feature = "threadsafe")]
mod shared;

use build::template;
use cafebabe::bytecode::{ByteCode, Opcode};
use cafebabe::descriptors::ClassName;
use cafebabe::{parse_class, parse_class_with_options, ClassFile, ParseError, ParseOptions};
use hooks::*;
use model::M;
use std::borrow::Cow;
use std::convert::TryFrom;

#[cfg(feature = "native")]
#[global_allocator]
static ALLOC: hooks::imp::Counting = hooks::imp::Counting;

/// what the executor returns in place of formatted text
#[no_mangle]
pub static VERIF_EMPTY_STRING: String = String::new();

#[inline(never)]
fn parse<'a>(v: &'a [u8], bytecode: bool) -> Result<ClassFile<'a>, ParseError> {
    if bytecode {
        parse_class(v)
    } else {
        let mut o = ParseOptions::default();
        o.parse_bytecode(false);
        parse_class_with_options(v, &o)
    }
}

/// parse, compare with the reference reader, and look at what is left on the heap
fn compare(v: &[u8], bytecode: bool) {
    seen(v);
    let before = live();
    {
        let r = parse(v, bytecode);
        judge(v, bytecode, &r, false);
    }
    if live() != before {
        fail(301);
    }
    if model::copied() {
        fail(1801);
    }
}

fn judge<'x>(v: &[u8], bytecode: bool, r: &'x Result<ClassFile<'x>, ParseError>, quiet: bool) {
    let cover = |c| if !quiet { cover(c) };
    let note = |x| if !quiet { note(x) };
    let mut m = M::new(v, bytecode);
    match r {
        Ok(c) => match m.class_file(Some(c)) {
            Ok(()) => {
                cover(1);
                note(1);
                note(c.methods.len() as u64);
                note(m.pool.len() as u64);
            }
            Err(model::TOO_DEEP) => note(3),
            Err(rej) => fail(20000 + rej),
        },
        Err(_) => match m.class_file(None) {
            Ok(()) => {
                if !m.lenient {
                    fail(30000);
                }
                cover(3);
                note(2);
            }
            Err(rej) => {
                cover(2);
                cover(10000 + rej);
                note(0);
                note(rej as u64);
            }
        },
    }
}

fn window(v: &mut [u8], w: u64) {
    let (off, len) = (w as u32 as usize, (w >> 32) as u16 as usize);
    if w >> 48 == 0 {
        if len > 0 {
            sym(&mut v[off..off + len]);
        }
        return;
    }
    // a word: only letters, digits, $ and _; slashes stay where they are
    for c in &mut v[off..off + len] {
        if *c != b'/' {
            sym(std::slice::from_mut(c));
            let x = *c;
            let within = |a: u8, n: u8| x.wrapping_sub(a) < n;
            assume(within(b'a', 26) | within(b'A', 26) | within(b'0', 10) | (x == b'$') | (x == b'_'));
        }
    }
}

/// the text of a descriptor or class name is printed back unchanged
fn round_trip(v: &[u8]) {
    seen(v);
    if let Ok(c) = parse_class(v) {
        let mut m = M::new(v, true);
        let _ = m.class_file(None);
        for (k, f) in c.fields.iter().enumerate() {
            let s = format!("{}", f.descriptor);
            let d = m.field_descs[k];
            m.ck_utf(d, &s, 850);
            cover(30);
        }
        for (k, x) in c.methods.iter().enumerate() {
            let s = format!("{}", x.descriptor);
            let d = m.method_descs[k];
            m.ck_utf(d, &s, 851);
            cover(31);
        }
        let s = format!("{}", c.this_class);
        if s.as_bytes() != c.this_class.as_bytes() {
            fail(852);
        }
        note(1);
    } else {
        note(0);
    }
}

/// the public constructor accepts exactly the binary names
fn class_name(owned: bool, n: usize) {
    let mut b = vec![0u8; n];
    sym(&mut b);
    let s = match std::str::from_utf8(&b) {
        Ok(s) => s,
        Err(_) => {
            note(9);
            return;
        }
    };
    let c: Cow<str> = if owned { Cow::Owned(s.to_string()) } else { Cow::Borrowed(s) };
    match ClassName::try_from(c) {
        Ok(c) => {
            cover(1);
            note(1);
            if names::class_name(&b) == names::Tri::No {
                fail(20720);
            }
            if c.as_bytes() != &b[..] {
                fail(721);
            }
            let back: Cow<str> = c.into();
            if back.as_bytes() != &b[..] {
                fail(722);
            }
        }
        Err(_) => {
            cover(2);
            note(0);
            if names::class_name(&b) == names::Tri::Yes {
                fail(30720);
            }
        }
    }
}

/// for any increasing offsets and any query, the lookup finds exactly the instruction there
fn opcode_index(n: usize, bits: u64) {
    let mut ops: Vec<(usize, Opcode<'static>)> = Vec::new();
    let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut last = 0u64;
    for k in 0..n {
        let mut b = [0u8; 8];
        sym(&mut b);
        let o = u64::from_be_bytes(b);
        assume(o <= mask);
        assume(k == 0 || o > last);
        last = o;
        ops.push((o as usize, Opcode::Nop));
    }
    let mut b = [0u8; 8];
    sym(&mut b);
    let q = u64::from_be_bytes(b) as usize;
    let offs: Vec<usize> = ops.iter().map(|x| x.0).collect();
    let bc = ByteCode { opcodes: ops };
    match bc.get_opcode_index(q) {
        Some(i) => {
            cover(1);
            if i >= n || offs[i] != q {
                fail(1020);
            }
        }
        None => {
            cover(2);
            for o in &offs {
                if *o == q {
                    fail(1021);
                }
            }
        }
    }
    note(n as u64);
}

/// switching bytecode parsing off changes nothing but the presence of the bytecode
fn option(v: &[u8]) {
    seen(v);
    let before = live();
    {
        let on = parse(v, true);
        let off = parse(v, false);
        let mut o = ParseOptions::default();
        o.parse_bytecode(false).parse_bytecode(true);
        let on2 = parse_class_with_options(v, &o);
        if on.is_ok() && off.is_err() {
            fail(1610);
        }
        if on.is_ok() != on2.is_ok() {
            fail(1611);
        }
        judge(v, true, &on, false);
        judge(v, false, &off, false);
        judge(v, true, &on2, false);
    }
    if live() != before {
        fail(301);
    }
    if model::copied() {
        fail(1801);
    }
}

#[no_mangle]
pub extern "C" fn verif_main(a: u64, b: u64, c: u64) {
    model::start();
    let kind = a & 0xff;
    let bytecode = a & 0x100 == 0;
    let id = a >> 16;
    if kind == 2 {
        return class_name(a & 0x100 != 0, b as usize);
    }
    if kind == 3 {
        return opcode_index(b as usize, c);
    }
    if kind == 8 {
        // every file of a given length behind a given header
        let n = b as usize;
        let mut v = vec![0u8; n];
        let h = [0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, c as u8];
        let fixed = if c == 0 { 0 } else { h.len().min(n) };
        v[..fixed].copy_from_slice(&h[..fixed]);
        sym(&mut v[fixed..]);
        return compare(&v, bytecode);
    }
    let mut v = match template(id) {
        Some(t) => t.bytes,
        None => return,
    };
    match kind {
        0 => {
            window(&mut v, b);
            window(&mut v, c);
            compare(&v, bytecode)
        }
        1 => {
            // cut off anywhere in a range
            window(&mut v, c);
            let (lo, hi) = (b as u32 as usize, ((b >> 32) as usize).min(v.len()));
            let n = sym_u16() as usize;
            assume(n >= lo && n <= hi);
            compare(&v[..n], bytecode)
        }
        4 => {
            flag(1, 1);
            window(&mut v, b);
            window(&mut v, c);
            round_trip(&v)
        }
        5 => {
            window(&mut v, b);
            window(&mut v, c);
            option(&v)
        }
        6 => {
            window(&mut v, c);
            let n = v.len();
            v.resize(n + b as usize, 0);
            sym(&mut v[n..]);
            compare(&v, bytecode)
        }
        // c: how many threads and how many times one of them may be interrupted
        #[cfg(feature = "threadsafe")]
        9 => {
            window(&mut v, b);
            shared::reads(&v, c & 0xff, c >> 8 & 0xff)
        }
        #[cfg(feature = "threadsafe")]
        10 => {
            window(&mut v, b);
            shared::parses(&v, c & 0xff, c >> 8 & 0xff)
        }
        _ => {}
    }
}

#[cfg(not(feature = "native"))]
fn main() {
    let v: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::hint::black_box(&VERIF_EMPTY_STRING);
    verif_main(v[0], v[1], v[2]);
}

#[cfg(feature = "native")]
mod native {
    use super::*;
    use hooks::imp::*;
    use std::io::{BufRead, Write};
    use std::sync::atomic::Ordering;

    fn list() {
        for id in 0..build::END {
            let t = match template(id) {
                Some(t) => t,
                None => continue,
            };
            let m: Vec<String> = t
                .marks
                .iter()
                .map(|m| format!("{{\"prop\":{},\"name\":\"{}\",\"start\":{},\"end\":{}}}", m.prop, m.name, m.start, m.end))
                .collect();
            let h: String = t.bytes.iter().map(|b| format!("{:02x}", b)).collect();
            println!("{{\"id\":{},\"len\":{},\"bytes\":\"{}\",\"marks\":[{}]}}", id, t.bytes.len(), h, m.join(","));
        }
    }

    fn unhex(h: &str) -> Vec<u8> {
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
    }

    fn one(a: u64, b: u64, c: u64, input: Vec<u8>) -> String {
        CTX.with(|x| *x.borrow_mut() = Ctx { input, notes: Vec::with_capacity(64), covers: Vec::with_capacity(4096), pos: 0 });
        LARGEST.store(0, Ordering::Relaxed);
        let r = std::panic::catch_unwind(|| verif_main(a, b, c));
        let big = LARGEST.load(Ordering::Relaxed);
        let notes = CTX.with(|x| x.borrow().notes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let what = match r {
            Ok(()) => "done".to_string(),
            Err(e) => {
                if let Some(f) = e.downcast_ref::<Fail>() {
                    format!("fail {}", f.0)
                } else if e.downcast_ref::<Assume>().is_some() {
                    "assume".to_string()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    format!("panic {}", s)
                } else if let Some(s) = e.downcast_ref::<String>() {
                    format!("panic {}", s)
                } else {
                    "panic".to_string()
                }
            }
        };
        format!("{}\t{}\t{}", what.replace(['\n', '\t'], " "), big, notes)
    }

    /// one line `a b c hexinput` per run; answers `begin` and `outcome<TAB>largest<TAB>notes`
    pub fn main() {
        std::panic::set_hook(Box::new(|_| {}));
        if std::env::args().nth(1).as_deref() == Some("list") {
            return list();
        }
        // `dump a b c hexinput`: write the class file of this run to standard output
        if std::env::args().nth(1).as_deref() == Some("dump") {
            let v: Vec<String> = std::env::args().skip(2).collect();
            let n = |k: usize| v[k].parse::<u64>().unwrap();
            KEEP.store(true, Ordering::Relaxed);
            let a = (n(0), n(1), n(2), unhex(v.get(3).map(|s| &s[..]).unwrap_or("")));
            let t = std::thread::spawn(move || one(a.0, a.1, a.2, a.3));
            let _ = t.join();
            let f = FILE.lock().unwrap();
            std::io::stdout().write_all(&f).unwrap();
            return;
        }
        let out = std::io::stdout();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let f: Vec<&str> = l.split(' ').collect();
            let n = |k: usize| f[k].parse::<u64>().unwrap();
            let h = f.get(3).copied().unwrap_or("");
            let input = unhex(h);
            let (a, b, c) = (n(0), n(1), n(2));
            let _ = writeln!(out.lock(), "begin");
            let _ = out.lock().flush();
            let s = one(a, b, c, input);
            let _ = writeln!(out.lock(), "{}", s);
            let _ = out.lock().flush();
        }
    }
}
#[cfg(feature = "native")]
fn main() {
    native::main()
}
