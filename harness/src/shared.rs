//! Several threads use the library at the same time (threadsafe build).
use crate::hooks::*;
use crate::{judge, model, parse};
use cafebabe::constant_pool::*;
use cafebabe::ClassFile;
use std::borrow::Cow;

/// the build fails here if a parsed class cannot be shared between threads
#[cfg(not(feature = "nosync"))]
#[allow(dead_code)]
fn sharable() {
    fn need<T: Send + Sync>() {}
    need::<ClassFile<'static>>();
    need::<cafebabe::ParseError>();
    need::<ConstantPoolItem<'static>>();
}

fn lit(a: &LiteralConstant, b: &LiteralConstant) -> bool {
    use LiteralConstant::*;
    match (a, b) {
        (Integer(x), Integer(y)) => x == y,
        (Float(x), Float(y)) => x.to_bits() == y.to_bits(),
        (Long(x), Long(y)) => x == y,
        (Double(x), Double(y)) => x.to_bits() == y.to_bits(),
        (String(x), String(y)) => x == y,
        (StringBytes(x), StringBytes(y)) => x == y,
        _ => false,
    }
}
fn nat(a: &NameAndType, b: &NameAndType) -> bool {
    a.name == b.name && a.descriptor == b.descriptor
}
fn mem(a: &MemberRef, b: &MemberRef) -> bool {
    a.class_name == b.class_name && nat(&a.name_and_type, &b.name_and_type)
}
fn txt(a: &Cow<str>, b: &Cow<str>) -> bool {
    a == b
}
fn same(a: &ConstantPoolItem, b: &ConstantPoolItem) -> bool {
    use ConstantPoolItem::*;
    match (a, b) {
        (LiteralConstant(x), LiteralConstant(y)) => lit(x, y),
        (ClassInfo(x), ClassInfo(y)) => txt(x, y),
        (FieldRef(x), FieldRef(y)) => mem(x, y),
        (MethodRef(x), MethodRef(y)) => mem(x, y),
        (InterfaceMethodRef(x), InterfaceMethodRef(y)) => mem(x, y),
        (NameAndType(x), NameAndType(y)) => nat(x, y),
        (MethodHandle(x), MethodHandle(y)) => {
            x.kind == y.kind
                && x.class_name == y.class_name
                && std::mem::discriminant(&x.member_kind) == std::mem::discriminant(&y.member_kind)
                && nat(&x.member_ref, &y.member_ref)
        }
        (MethodType(x), MethodType(y)) => txt(x, y),
        (Dynamic(x), Dynamic(y)) => x.attr_index == y.attr_index && nat(&x.name_and_type, &y.name_and_type),
        (InvokeDynamic(x), InvokeDynamic(y)) => x.attr_index == y.attr_index && nat(&x.name_and_type, &y.name_and_type),
        (ModuleInfo(x), ModuleInfo(y)) => txt(x, y),
        (PackageInfo(x), PackageInfo(y)) => txt(x, y),
        _ => false,
    }
}

struct Shared<'a> {
    class: &'a ClassFile<'a>,
    want: &'a [ConstantPoolItem<'a>],
    bytes: &'a [u8],
}
/// written before the threads start, read by them only
static mut SHARED: *const Shared<'static> = std::ptr::null();

unsafe fn share(s: &Shared) {
    SHARED = s as *const Shared<'_> as *const Shared<'static>;
}

fn walk<'a>(c: &'a ClassFile<'a>, want: &[ConstantPoolItem]) {
    let mut n = 0;
    for i in c.constantpool_iter() {
        if n >= want.len() {
            fail(202);
        }
        if !same(&i, &want[n]) {
            fail(201);
        }
        n += 1;
    }
    if n != want.len() {
        fail(202);
    }
}

fn reader(_k: u64) {
    let s = unsafe { &*SHARED };
    walk(s.class, s.want);
}

/// parse once, then read the constants from several threads
pub fn reads(v: &[u8], n: u64, bound: u64) {
    seen(v);
    let r = parse(v, true);
    judge(v, true, &r, false);
    if let Ok(c) = &r {
        let want: Vec<ConstantPoolItem> = c.constantpool_iter().collect();
        let s = Shared { class: c, want: &want, bytes: v };
        unsafe { share(&s) };
        threads(reader, n, bound);
        walk(c, &want);
        cover(40);
    }
}

fn parser(_k: u64) {
    let s = unsafe { &*SHARED };
    let r = parse(s.bytes, true);
    judge(s.bytes, true, &r, true);
    if let Ok(c) = &r {
        walk(c, s.want);
    }
}

/// several threads parse the same bytes while they share nothing else
pub fn parses(v: &[u8], n: u64, bound: u64) {
    seen(v);
    let r = parse(v, true);
    judge(v, true, &r, false);
    model::private();
    let dummy;
    let c = match &r {
        Ok(c) => c,
        Err(_) => return,
    };
    dummy = c.constantpool_iter().collect::<Vec<_>>();
    let s = Shared { class: c, want: &dummy, bytes: v };
    unsafe { share(&s) };
    threads(parser, n, bound);
    cover(41);
}
