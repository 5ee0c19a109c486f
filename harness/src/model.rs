//! Reference reader of the class-file format (JVMS chapter 4), written from the specification.
//! It walks the same bytes as the library, decides whether they have to be accepted, and, when
//! the library accepted them, compares every part of the result on the way.
use crate::hooks::{cover, fail};
use crate::names::*;
use cafebabe::attributes::*;
use cafebabe::constant_pool::*;
use cafebabe::descriptors::*;
use cafebabe::*;
use std::borrow::Cow;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

/// why the reference reader rejects (property number * 100 + detail)
pub type Rej = u32;
pub type R<T> = Result<T, Rej>;

pub const TRUNC: Rej = 1101;

macro_rules! ck {
    ($c:expr, $code:expr) => {
        if !$c {
            fail($code)
        }
    };
}
pub(crate) use ck;

pub type Str<'a> = Cow<'a, [u8]>;

pub enum ME<'a> {
    Zero,
    Unused,
    Utf8(&'a [u8], Option<Str<'a>>),
    Int(u32),
    Float(u32),
    Long(u64),
    Double(u64),
    Class(u16),
    Str(u16),
    Field(u16, u16),
    Method(u16, u16),
    IMethod(u16, u16),
    Nat(u16, u16),
    Handle(u8, u16),
    MType(u16),
    Dynamic(u16, u16),
    Indy(u16, u16),
    Module(u16),
    Package(u16),
}

pub struct M<'a> {
    pub b: &'a [u8],
    pub i: usize,
    pub pool: Vec<ME<'a>>,
    pub major: u16,
    pub bytecode: bool,
    /// the specification leaves acceptance of this input open
    pub lenient: bool,
    /// nesting of annotation values / attributes
    pub depth: u32,
    /// Utf8 indices of the descriptors of the fields and methods read
    pub field_descs: Vec<u16>,
    pub method_descs: Vec<u16>,
}

/// deepest nesting of attributes or annotation values for which acceptance is demanded
pub const MAX_NEST: u32 = 20;
/// the reference reader gives up (with no verdict) beyond this depth
const MAX_READ: u32 = 100;
pub const TOO_DEEP: u32 = 999;

/// where the input lies, and whether some text was found copied although it need not be
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static COPIED: AtomicBool = AtomicBool::new(false);

pub fn start() {
    COPIED.store(false, Ordering::Relaxed);
}
/// these statics belong to the reference reader: threads do not meet in them
#[allow(dead_code)]
pub fn private() {
    crate::hooks::flag(5, &LO as *const _ as u64);
    crate::hooks::flag(5, &HI as *const _ as u64);
    crate::hooks::flag(5, &COPIED as *const _ as u64);
}
pub fn copied() -> bool {
    COPIED.load(Ordering::Relaxed)
}
fn inside(p: *const u8, n: usize) -> bool {
    let p = p as usize;
    p >= LO.load(Ordering::Relaxed) && p + n <= HI.load(Ordering::Relaxed)
}
/// the same text; where the expected text is a part of the input, the actual one should be too
fn same(a: &str, b: &[u8]) -> bool {
    same_bytes(a.as_bytes(), b)
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a != b {
        return false;
    }
    if !a.is_empty() && inside(b.as_ptr(), b.len()) && !inside(a.as_ptr(), a.len()) {
        COPIED.store(true, Ordering::Relaxed);
    }
    true
}

impl<'a> M<'a> {
    pub fn new(b: &'a [u8], bytecode: bool) -> Self {
        LO.store(b.as_ptr() as usize, Ordering::Relaxed);
        HI.store(b.as_ptr() as usize + b.len(), Ordering::Relaxed);
        M { b, i: 0, pool: Vec::new(), major: 0, bytecode, lenient: false, depth: 0, field_descs: Vec::new(), method_descs: Vec::new() }
    }
    #[inline(never)]
    pub fn u1(&mut self) -> R<u8> {
        if self.b.len() - self.i < 1 {
            return Err(TRUNC);
        }
        self.i += 1;
        Ok(self.b[self.i - 1])
    }
    #[inline(never)]
    pub fn u2(&mut self) -> R<u16> {
        if self.b.len() - self.i < 2 {
            return Err(TRUNC);
        }
        self.i += 2;
        Ok((self.b[self.i - 2] as u16) << 8 | self.b[self.i - 1] as u16)
    }
    #[inline(never)]
    pub fn u4(&mut self) -> R<u32> {
        Ok((self.u2()? as u32) << 16 | self.u2()? as u32)
    }
    pub fn u8(&mut self) -> R<u64> {
        Ok((self.u4()? as u64) << 32 | self.u4()? as u64)
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.i < n {
            return Err(TRUNC);
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }

    // ---- constant pool ----
    fn pool_entry(&mut self) -> R<ME<'a>> {
        let t = self.u1()?;
        let v = self.major;
        Ok(match t {
            1 => {
                let n = self.u2()? as usize;
                let raw = self.take(n)?;
                let dec = if utf8(raw) { Some(Cow::Borrowed(raw)) } else { mutf8(raw).map(Cow::Owned) };
                ME::Utf8(raw, dec)
            }
            3 => ME::Int(self.u4()?),
            4 => ME::Float(self.u4()?),
            5 => ME::Long(self.u8()?),
            6 => ME::Double(self.u8()?),
            7 => ME::Class(self.u2()?),
            8 => ME::Str(self.u2()?),
            9 => ME::Field(self.u2()?, self.u2()?),
            10 => ME::Method(self.u2()?, self.u2()?),
            11 => ME::IMethod(self.u2()?, self.u2()?),
            12 => ME::Nat(self.u2()?, self.u2()?),
            15 if v >= 51 => {
                let k = self.u1()?;
                if k < 1 || k > 9 {
                    return Err(502);
                }
                ME::Handle(k, self.u2()?)
            }
            16 if v >= 51 => ME::MType(self.u2()?),
            17 if v >= 55 => ME::Dynamic(self.u2()?, self.u2()?),
            18 if v >= 51 => ME::Indy(self.u2()?, self.u2()?),
            19 if v >= 53 => ME::Module(self.u2()?),
            20 if v >= 53 => ME::Package(self.u2()?),
            _ => return Err(501),
        })
    }
    #[inline(never)]
    pub fn read_pool(&mut self) -> R<()> {
        let count = self.u2()? as usize;
        self.pool.reserve(count + 1);
        self.pool.push(ME::Zero);
        while self.pool.len() < count {
            let e = self.pool_entry()?;
            let wide = matches!(e, ME::Long(_) | ME::Double(_));
            self.pool.push(e);
            if wide {
                if self.pool.len() >= count {
                    // the second slot would lie outside the pool
                    self.lenient = true;
                }
                self.pool.push(ME::Unused);
            }
        }
        for i in 1..self.pool.len() {
            self.check_entry(i)?;
        }
        Ok(())
    }
    pub fn at(&self, ix: u16) -> R<&ME<'a>> {
        let ix = ix as usize;
        if ix >= self.pool.len() {
            return Err(503);
        }
        Ok(&self.pool[ix])
    }
    /// decoded bytes of a Utf8 entry used where a name or descriptor is needed
    pub fn utf(&self, ix: u16) -> R<&[u8]> {
        match self.at(ix)? {
            ME::Utf8(_, Some(d)) => Ok(d),
            ME::Utf8(_, None) => Err(602),
            _ => Err(504),
        }
    }
    fn nat(&self, ix: u16) -> R<(&[u8], &[u8])> {
        match self.at(ix)? {
            ME::Nat(n, d) => Ok((self.utf(*n)?, self.utf(*d)?)),
            _ => Err(505),
        }
    }
    pub fn class(&self, ix: u16) -> R<&[u8]> {
        match self.at(ix)? {
            ME::Class(n) => self.utf(*n),
            _ => Err(506),
        }
    }
    #[inline(never)]
    fn check_entry(&mut self, i: usize) -> R<()> {
        let mut either = false;
        match &self.pool[i] {
            ME::Class(n) => {
                let s = self.utf(*n)?;
                if !binary_name(s) {
                    match field_desc(s) {
                        Some(f) if f.dims > 0 => either = f.either,
                        _ => return Err(701),
                    }
                }
            }
            ME::Str(n) => match self.at(*n)? {
                ME::Utf8(..) => {}
                _ => return Err(507),
            },
            ME::Field(c, m) => {
                self.class(*c)?;
                let (_, d) = self.nat(*m)?;
                match field_desc(d) {
                    Some(f) => either = f.either,
                    None => return Err(801),
                }
            }
            ME::Method(c, m) | ME::IMethod(c, m) => {
                self.class(*c)?;
                let (n, d) = self.nat(*m)?;
                match method_desc(d) {
                    Some(f) => either = f.either,
                    None => return Err(802),
                }
                // 4.4.2 restricts `<` in method names; the library leaves that to the verifier
                either |= !method_name(n, true, false);
            }
            ME::Nat(n, d) => {
                if !unqualified(self.utf(*n)?) {
                    return Err(702);
                }
                let s = self.utf(*d)?;
                // 4.4.6: the descriptor must be valid; checked by the library only where used
                either = match (field_desc(s), method_desc(s)) {
                    (Some(f), _) => f.either,
                    (_, Some(m)) => m.either,
                    _ => true,
                };
            }
            ME::Handle(k, r) => {
                let (ok, m) = match (self.at(*r)?, k) {
                    (ME::Field(_, m), 1..=4) => (true, *m),
                    (ME::Method(_, m), 5..=8) => (true, *m),
                    (ME::IMethod(_, m), 9) => (true, *m),
                    (ME::IMethod(_, m), 6 | 7) => (self.major >= 52, *m),
                    _ => (false, 0),
                };
                if !ok {
                    return Err(508);
                }
                if *k >= 5 {
                    // 4.4.8 restricts <init> / <clinit>; the library leaves that to the linker
                    let (n, _) = self.nat(m)?;
                    let special = n == b"<init>";
                    either = (*k == 8) != special || n == b"<clinit>";
                }
            }
            ME::MType(d) => match method_desc(self.utf(*d)?) {
                Some(m) => either = m.either,
                None => return Err(803),
            },
            ME::Dynamic(_, m) => match field_desc(self.nat(*m)?.1) {
                Some(f) => either = f.either,
                None => return Err(804),
            },
            ME::Indy(_, m) => match method_desc(self.nat(*m)?.1) {
                Some(f) => either = f.either,
                None => return Err(805),
            },
            ME::Module(n) => {
                if !module_name(self.utf(*n)?) {
                    return Err(703);
                }
            }
            ME::Package(n) => {
                if !binary_name(self.utf(*n)?) {
                    return Err(704);
                }
            }
            _ => {}
        }
        if either {
            self.lenient = true;
        }
        Ok(())
    }

    // ---- comparison of resolved constants ----
    pub fn ck_utf(&self, ix: u16, s: &str, code: u32) {
        match self.utf(ix) {
            Ok(d) => ck!(same(s, d), code),
            Err(_) => fail(code),
        }
    }
    fn ck_class(&self, ix: u16, s: &str, code: u32) {
        match self.class(ix) {
            Ok(d) => ck!(same(s, d), code),
            Err(_) => fail(code),
        }
    }
    pub fn ck_nat(&self, ix: u16, n: &NameAndType, code: u32) {
        match self.nat(ix) {
            Ok((a, d)) => ck!(same(&n.name, a) && same(&n.descriptor, d), code),
            Err(_) => fail(code),
        }
    }
    fn ck_literal(&self, e: &ME<'a>, l: &LiteralConstant, code: u32) {
        let ok = match (e, l) {
            (ME::Int(v), LiteralConstant::Integer(x)) => *v == *x as u32,
            (ME::Float(v), LiteralConstant::Float(x)) => *v == x.to_bits(),
            (ME::Long(v), LiteralConstant::Long(x)) => *v == *x as u64,
            (ME::Double(v), LiteralConstant::Double(x)) => *v == x.to_bits(),
            (ME::Str(n), LiteralConstant::String(x)) => match self.at(*n) {
                Ok(ME::Utf8(_, Some(d))) => same(x, d),
                _ => false,
            },
            (ME::Str(n), LiteralConstant::StringBytes(x)) => match self.at(*n) {
                Ok(ME::Utf8(raw, None)) => same_bytes(x, raw),
                _ => false,
            },
            _ => false,
        };
        ck!(ok, code);
    }
    pub fn ck_member(&self, c: u16, m: u16, r: &MemberRef, code: u32) {
        self.ck_class(c, &r.class_name, code);
        self.ck_nat(m, &r.name_and_type, code);
    }
    fn ck_handle(&self, k: u8, r: u16, h: &MethodHandle, code: u32) {
        let kind = match h.kind {
            ReferenceKind::GetField => 1,
            ReferenceKind::GetStatic => 2,
            ReferenceKind::PutField => 3,
            ReferenceKind::PutStatic => 4,
            ReferenceKind::InvokeVirtual => 5,
            ReferenceKind::InvokeStatic => 6,
            ReferenceKind::InvokeSpecial => 7,
            ReferenceKind::NewInvokeSpecial => 8,
            ReferenceKind::InvokeInterface => 9,
        };
        ck!(kind == k, code);
        match (self.at(r), h.member_kind) {
            (Ok(ME::Field(c, m)), MemberKind::Field)
            | (Ok(ME::Method(c, m)), MemberKind::Method)
            | (Ok(ME::IMethod(c, m)), MemberKind::InterfaceMethod) => {
                self.ck_class(*c, &h.class_name, code);
                self.ck_nat(*m, &h.member_ref, code);
            }
            _ => fail(code),
        }
    }
    pub fn ck_loadable(&self, ix: u16, l: &Loadable, code: u32) {
        let e = match self.at(ix) {
            Ok(e) => e,
            Err(_) => fail(code),
        };
        match (e, l) {
            (e, Loadable::LiteralConstant(x)) => self.ck_literal(e, x, code),
            (ME::Class(n), Loadable::ClassInfo(x)) => self.ck_utf(*n, x, code),
            (ME::Handle(k, r), Loadable::MethodHandle(h)) => self.ck_handle(*k, *r, h, code),
            (ME::MType(n), Loadable::MethodType(x)) => self.ck_utf(*n, x, code),
            (ME::Dynamic(b, m), Loadable::Dynamic(d)) => {
                ck!(d.attr_index == *b, code);
                self.ck_nat(*m, &d.name_and_type, code);
            }
            _ => fail(code),
        }
    }
    /// the pool iterator yields exactly the non-Utf8 entries, in order, fully resolved
    #[inline(never)]
    fn ck_pool_iter<'r>(&self, c: &'r ClassFile<'r>) {
        let mut it = c.constantpool_iter();
        for e in &self.pool {
            if let ME::Zero | ME::Unused | ME::Utf8(..) = e {
                continue;
            }
            let item = match it.next() {
                Some(x) => x,
                None => fail(520),
            };
            match (e, &item) {
                (ME::Int(_) | ME::Float(_) | ME::Long(_) | ME::Double(_) | ME::Str(_), ConstantPoolItem::LiteralConstant(l)) => {
                    self.ck_literal(e, l, 521)
                }
                (ME::Class(n), ConstantPoolItem::ClassInfo(s)) => self.ck_utf(*n, s, 522),
                (ME::Field(a, b), ConstantPoolItem::FieldRef(r)) => self.ck_member(*a, *b, r, 523),
                (ME::Method(a, b), ConstantPoolItem::MethodRef(r)) => self.ck_member(*a, *b, r, 524),
                (ME::IMethod(a, b), ConstantPoolItem::InterfaceMethodRef(r)) => self.ck_member(*a, *b, r, 525),
                (ME::Nat(a, b), ConstantPoolItem::NameAndType(n)) => {
                    self.ck_utf(*a, &n.name, 526);
                    self.ck_utf(*b, &n.descriptor, 526);
                }
                (ME::Handle(k, r), ConstantPoolItem::MethodHandle(h)) => self.ck_handle(*k, *r, h, 527),
                (ME::MType(n), ConstantPoolItem::MethodType(s)) => self.ck_utf(*n, s, 528),
                (ME::Dynamic(b, m), ConstantPoolItem::Dynamic(d)) => {
                    ck!(d.attr_index == *b, 529);
                    self.ck_nat(*m, &d.name_and_type, 529);
                }
                (ME::Indy(b, m), ConstantPoolItem::InvokeDynamic(d)) => {
                    ck!(d.attr_index == *b, 530);
                    self.ck_nat(*m, &d.name_and_type, 530);
                }
                (ME::Module(n), ConstantPoolItem::ModuleInfo(s)) => self.ck_utf(*n, s, 531),
                (ME::Package(n), ConstantPoolItem::PackageInfo(s)) => self.ck_utf(*n, s, 532),
                _ => fail(533),
            }
        }
        ck!(it.next().is_none(), 534);
        ck!(it.next().is_none(), 534);
    }

    // ---- descriptors ----
    pub fn ck_field_d(d: &[u8], f: &FieldD, r: &FieldDescriptor, code: u32) {
        ck!(r.dimensions as usize == f.dims, code);
        let ok = match (&r.field_type, f.base) {
            (FieldType::Byte, b'B') => true,
            (FieldType::Char, b'C') => true,
            (FieldType::Double, b'D') => true,
            (FieldType::Float, b'F') => true,
            (FieldType::Integer, b'I') => true,
            (FieldType::Long, b'J') => true,
            (FieldType::Short, b'S') => true,
            (FieldType::Boolean, b'Z') => true,
            (FieldType::Object(n), b'L') => same(n, &d[f.cls.0..f.cls.1]),
            _ => false,
        };
        ck!(ok, code);
    }
    pub fn ck_method_d(d: &[u8], m: &MethodD, r: &MethodDescriptor, code: u32) {
        ck!(r.parameters.len() == m.params.len(), code);
        for (a, b) in m.params.iter().zip(r.parameters.iter()) {
            Self::ck_field_d(d, a, b, code);
        }
        match (&m.ret, &r.return_type) {
            (None, ReturnDescriptor::Void) => {}
            (Some(f), ReturnDescriptor::Return(x)) => Self::ck_field_d(d, f, x, code),
            _ => fail(code),
        }
    }
    /// a Utf8 reference that must hold a complete field descriptor
    pub fn field_d(&mut self, real: Option<&FieldDescriptor>, code: u32) -> R<u16> {
        let ix = self.u2()?;
        let f = match field_desc(self.utf(ix)?) {
            Some(f) => f,
            None => return Err(806),
        };
        if f.either {
            self.lenient = true;
        }
        if let Some(r) = real {
            Self::ck_field_d(self.utf(ix)?, &f, r, code);
        }
        Ok(ix)
    }

    // ---- simple references ----
    pub fn r_utf(&mut self, real: Option<&Cow<str>>, code: u32) -> R<u16> {
        let ix = self.u2()?;
        self.utf(ix)?;
        if let Some(r) = real {
            self.ck_utf(ix, r, code);
        }
        Ok(ix)
    }
    pub fn r_utf_opt(&mut self, real: Option<&Option<Cow<str>>>, code: u32) -> R<u16> {
        let ix = self.u2()?;
        if ix != 0 {
            self.utf(ix)?;
        }
        match real {
            Some(None) => ck!(ix == 0, code),
            Some(Some(s)) => {
                ck!(ix != 0, code);
                self.ck_utf(ix, s, code);
            }
            None => {}
        }
        Ok(ix)
    }
    pub fn r_class(&mut self, real: Option<&Cow<str>>, code: u32) -> R<u16> {
        let ix = self.u2()?;
        self.class(ix)?;
        if let Some(r) = real {
            self.ck_class(ix, r, code);
        }
        Ok(ix)
    }
    pub fn r_class_opt(&mut self, real: Option<&Option<Cow<str>>>, code: u32) -> R<u16> {
        let ix = self.u2()?;
        if ix != 0 {
            self.class(ix)?;
        }
        match real {
            Some(None) => ck!(ix == 0, code),
            Some(Some(s)) => {
                ck!(ix != 0, code);
                self.ck_class(ix, s, code);
            }
            None => {}
        }
        Ok(ix)
    }
    pub fn r_module(&mut self, real: Option<&Cow<str>>, code: u32) -> R<()> {
        let ix = self.u2()?;
        match self.at(ix)? {
            ME::Module(n) => {
                if let Some(r) = real {
                    self.ck_utf(*n, r, code);
                }
                Ok(())
            }
            _ => Err(509),
        }
    }
    pub fn r_package(&mut self, real: Option<&Cow<str>>, code: u32) -> R<()> {
        let ix = self.u2()?;
        match self.at(ix)? {
            ME::Package(n) => {
                if let Some(r) = real {
                    self.ck_utf(*n, r, code);
                }
                Ok(())
            }
            _ => Err(510),
        }
    }
    pub fn r_literal(&mut self, real: Option<&LiteralConstant>, code: u32) -> R<()> {
        let ix = self.u2()?;
        let e = self.at(ix)?;
        match e {
            ME::Int(_) | ME::Float(_) | ME::Long(_) | ME::Double(_) | ME::Str(_) => {}
            _ => return Err(511),
        }
        if let Some(r) = real {
            self.ck_literal(e, r, code);
        }
        Ok(())
    }
    pub fn r_handle(&mut self, real: Option<&MethodHandle>, code: u32) -> R<()> {
        let ix = self.u2()?;
        match self.at(ix)? {
            ME::Handle(k, r) => {
                if let Some(h) = real {
                    self.ck_handle(*k, *r, h, code);
                }
                Ok(())
            }
            _ => Err(512),
        }
    }
    pub fn r_bootstrap_arg(&mut self, real: Option<&BootstrapArgument>, code: u32) -> R<()> {
        let ix = self.u2()?;
        match self.at(ix)? {
            ME::Int(_) | ME::Float(_) | ME::Long(_) | ME::Double(_) | ME::Str(_) | ME::Class(_) | ME::Handle(..) | ME::MType(_) => {}
            // 4.7.23 (Java 11): any loadable constant; the library's type has no such variant
            ME::Dynamic(..) => {
                if real.is_some() {
                    fail(code);
                }
                self.lenient = true;
            }
            _ => return Err(513),
        }
        let e = self.at(ix)?;
        match (e, real) {
            (_, None) => {}
            (e, Some(BootstrapArgument::LiteralConstant(l))) => self.ck_literal(e, l, code),
            (ME::Class(n), Some(BootstrapArgument::ClassInfo(s))) => self.ck_utf(*n, s, code),
            (ME::Handle(k, r), Some(BootstrapArgument::MethodHandle(h))) => self.ck_handle(*k, *r, h, code),
            (ME::MType(n), Some(BootstrapArgument::MethodType(s))) => self.ck_utf(*n, s, code),
            _ => fail(code),
        }
        Ok(())
    }
    fn class_name(&mut self, real: Option<&ClassName>, code: u32) -> R<u16> {
        let ix = self.u2()?;
        match class_name(self.class(ix)?) {
            Tri::No => return Err(705),
            Tri::Either => self.lenient = true,
            Tri::Yes => {}
        }
        if let Some(r) = real {
            self.ck_class(ix, r, code);
        }
        Ok(ix)
    }

    // ---- the class file ----
    #[inline(never)]
    pub fn class_file<'r>(&mut self, real: Option<&'r ClassFile<'r>>) -> R<()> {
        if self.u4()? != 0xCAFE_BABE {
            return Err(401);
        }
        let minor = self.u2()?;
        self.major = self.u2()?;
        if let Some(r) = real {
            ck!(r.minor_version == minor, 410);
            ck!(r.major_version == self.major, 411);
        }
        self.read_pool()?;
        cover(10);
        let flags = self.u2()?;
        let known = flags & 0xF631;
        let is_module = flags & 0x8000 != 0;
        if is_module {
            if self.major < 53 {
                return Err(1501);
            }
            if known != 0x8000 {
                return Err(1502);
            }
            if flags != known {
                // 4.1: "no other flag in the access_flags item may be set"
                self.lenient = true;
            }
        }
        if let Some(r) = real {
            ck!(r.access_flags.bits() == known, 412);
        }
        self.class_name(real.map(|r| &r.this_class), 413)?;
        let sup = self.u2()?;
        if sup != 0 {
            match class_name(self.class(sup)?) {
                Tri::No => return Err(706),
                Tri::Either => self.lenient = true,
                Tri::Yes => {}
            }
        }
        match real.map(|r| &r.super_class) {
            Some(None) => ck!(sup == 0, 414),
            Some(Some(s)) => {
                ck!(sup != 0, 414);
                self.ck_class(sup, s, 414);
            }
            None => {}
        }
        let ni = self.u2()? as usize;
        if let Some(r) = real {
            ck!(r.interfaces.len() == ni, 415);
        }
        for k in 0..ni {
            self.class_name(real.map(|r| &r.interfaces[k]), 416)?;
        }
        cover(11);
        let nf = self.u2()? as usize;
        if let Some(r) = real {
            ck!(r.fields.len() == nf, 417);
        }
        let mut ids: Vec<(u16, u16)> = Vec::new();
        for k in 0..nf {
            let f = real.map(|r| &r.fields[k]);
            let fl = self.u2()?;
            if let Some(f) = f {
                ck!(f.access_flags.bits() == fl & 0x50DF, 418);
            }
            let n = self.r_utf(f.map(|f| &f.name), 419)?;
            if !unqualified(self.utf(n)?) {
                return Err(707);
            }
            let d = self.field_d(f.map(|f| &f.descriptor), 420)?;
            for (n2, d2) in &ids {
                if self.utf(*n2)? == self.utf(n)? && self.utf(*d2)? == self.utf(d)? {
                    return Err(1503);
                }
            }
            ids.push((n, d));
            self.field_descs.push(d);
            self.attributes(f.map(|f| &f.attributes), None)?;
        }
        cover(12);
        let nm = self.u2()? as usize;
        if let Some(r) = real {
            ck!(r.methods.len() == nm, 421);
        }
        ids.clear();
        let interface = flags & 0x0200 != 0;
        for k in 0..nm {
            let m = real.map(|r| &r.methods[k]);
            let fl = self.u2()?;
            if let Some(m) = m {
                ck!(m.access_flags.bits() == fl & 0x1DFF, 422);
            }
            let n = self.r_utf(m.map(|m| &m.name), 423)?;
            if !method_name(self.utf(n)?, !interface, true) {
                return Err(708);
            }
            let d = self.u2()?;
            let md = match method_desc(self.utf(d)?) {
                Some(x) => x,
                None => return Err(807),
            };
            if md.either {
                self.lenient = true;
            }
            if let Some(m) = m {
                Self::ck_method_d(self.utf(d)?, &md, &m.descriptor, 424);
            }
            let name = self.utf(n)?;
            if name == b"<init>" && md.ret.is_some() {
                return Err(1504);
            }
            if name == b"<clinit>" {
                if md.ret.is_some() {
                    return Err(1505);
                }
                if self.major >= 51 && !md.params.is_empty() {
                    return Err(1506);
                }
            }
            for (n2, d2) in &ids {
                if self.utf(*n2)? == self.utf(n)? && self.utf(*d2)? == self.utf(d)? {
                    return Err(1507);
                }
            }
            ids.push((n, d));
            self.method_descs.push(d);
            self.attributes(m.map(|m| &m.attributes), None)?;
        }
        cover(13);
        let mut bsm: Vec<usize> = Vec::new();
        self.attributes(real.map(|r| &r.attributes), Some(&mut bsm))?;
        if self.i != self.b.len() {
            return Err(1102);
        }
        if is_module {
            if sup != 0 {
                return Err(1508);
            }
            if ni != 0 {
                return Err(1509);
            }
            if nf != 0 {
                return Err(1510);
            }
            if nm != 0 {
                return Err(1511);
            }
        }
        for e in &self.pool {
            if let ME::Dynamic(b, _) | ME::Indy(b, _) = e {
                if bsm.len() != 1 {
                    return Err(1512);
                }
                if *b as usize >= bsm[0] {
                    return Err(1513);
                }
            }
        }
        cover(14);
        if let Some(r) = real {
            self.ck_pool_iter(r);
        }
        Ok(())
    }

    // ---- attributes ----
    pub fn attributes(&mut self, real: Option<&Vec<AttributeInfo>>, mut bsm: Option<&mut Vec<usize>>) -> R<()> {
        self.depth += 1;
        if self.depth > MAX_NEST {
            self.lenient = true;
            if self.depth > MAX_READ {
                return Err(TOO_DEEP);
            }
        }
        let n = self.u2()? as usize;
        if let Some(r) = real {
            ck!(r.len() == n, 1110);
        }
        for k in 0..n {
            let a = real.map(|r| &r[k]);
            let name = self.r_utf(a.map(|a| &a.name), 1111)?;
            let len = self.u4()? as usize;
            if self.b.len() - self.i < len {
                return Err(1103);
            }
            let end = self.i + len;
            let kind = known(self.utf(name)?);
            let count = self.attribute(kind, len, a.map(|a| &a.data))?;
            if self.i != end {
                return Err(1104);
            }
            if kind == 22 {
                if let Some(b) = bsm.as_mut() {
                    b.push(count);
                }
            }
        }
        self.depth -= 1;
        Ok(())
    }

    /// returns the number of entries for BootstrapMethods
    fn attribute(&mut self, kind: u32, len: usize, real: Option<&AttributeData>) -> R<usize> {
        cover(1000 + kind);
        use AttributeData as A;
        let fixed = |want: usize| -> R<()> {
            if len != want {
                return Err(1105);
            }
            Ok(())
        };
        // the variant must be the one for this name
        macro_rules! want {
            ($p:pat => $e:expr) => {
                match real {
                    None => None,
                    Some($p) => Some($e),
                    #[allow(unreachable_patterns)]
                    _ => fail(1120),
                }
            };
        }
        match kind {
            1 => {
                let r = want!(A::ConstantValue(x) => x);
                fixed(2)?;
                self.r_literal(r, 1201)?;
            }
            2 => {
                let r = want!(A::Code(x) => x);
                self.code(r)?;
            }
            3 => {
                let r = want!(A::StackMapTable(x) => x);
                self.stack_map(r)?;
            }
            4 => {
                let r = want!(A::Exceptions(x) => x);
                self.class_list(r, 1401)?;
            }
            5 => {
                let r = want!(A::InnerClasses(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1402)?;
                for k in 0..n {
                    let e = r.map(|r| &r[k]);
                    self.r_class(e.map(|e| &e.inner_class_info), 1403)?;
                    self.r_class_opt(e.map(|e| &e.outer_class_info), 1404)?;
                    self.r_utf_opt(e.map(|e| &e.inner_name), 1405)?;
                    let f = self.u2()?;
                    if let Some(e) = e {
                        ck!(e.access_flags.bits() == f & 0x761F, 1406);
                    }
                }
            }
            6 => {
                let r = want!(A::EnclosingMethod { class_name, method } => (class_name, method));
                fixed(4)?;
                self.r_class(r.map(|r| r.0), 1407)?;
                let ix = self.u2()?;
                if ix != 0 {
                    self.nat(ix)?;
                }
                match r.map(|r| r.1) {
                    Some(None) => ck!(ix == 0, 1408),
                    Some(Some(n)) => {
                        ck!(ix != 0, 1408);
                        self.ck_nat(ix, n, 1408);
                    }
                    None => {}
                }
            }
            7 => {
                want!(A::Synthetic => ());
                fixed(0)?;
            }
            8 => {
                let r = want!(A::Signature(x) => x);
                fixed(2)?;
                self.r_utf(r, 1409)?;
            }
            9 => {
                let r = want!(A::SourceFile(x) => x);
                fixed(2)?;
                self.r_utf(r, 1410)?;
            }
            10 => {
                let r = want!(A::SourceDebugExtension(x) => x);
                let raw = self.take(len)?;
                let dec = if utf8(raw) { Some(Cow::Borrowed(raw)) } else { mutf8(raw).map(Cow::Owned) };
                match dec {
                    None => return Err(603),
                    Some(d) => {
                        if let Some(r) = r {
                            ck!(same(r, &d), 1411);
                        }
                    }
                }
            }
            11 => {
                let r = want!(A::LineNumberTable(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1202)?;
                for k in 0..n {
                    let (a, b) = (self.u2()?, self.u2()?);
                    if let Some(r) = r {
                        ck!(r[k].start_pc == a && r[k].line_number == b, 1203);
                    }
                }
            }
            12 => {
                let r = want!(A::LocalVariableTable(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1204)?;
                for k in 0..n {
                    let e = r.map(|r| &r[k]);
                    let (s, l) = (self.u2()?, self.u2()?);
                    let nm = self.r_utf(e.map(|e| &e.name), 1205)?;
                    if !unqualified(self.utf(nm)?) {
                        return Err(709);
                    }
                    self.field_d(e.map(|e| &e.descriptor), 1206)?;
                    let x = self.u2()?;
                    if let Some(e) = e {
                        ck!(e.start_pc == s && e.length == l && e.index == x, 1207);
                    }
                }
            }
            13 => {
                let r = want!(A::LocalVariableTypeTable(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1208)?;
                for k in 0..n {
                    let e = r.map(|r| &r[k]);
                    let (s, l) = (self.u2()?, self.u2()?);
                    let nm = self.r_utf(e.map(|e| &e.name), 1209)?;
                    if !unqualified(self.utf(nm)?) {
                        return Err(710);
                    }
                    self.r_utf(e.map(|e| &e.signature), 1210)?;
                    let x = self.u2()?;
                    if let Some(e) = e {
                        ck!(e.start_pc == s && e.length == l && e.index == x, 1211);
                    }
                }
            }
            14 => {
                want!(A::Deprecated => ());
                fixed(0)?;
            }
            15 => {
                let r = want!(A::RuntimeVisibleAnnotations(x) => x);
                self.annotations(r)?;
            }
            16 => {
                let r = want!(A::RuntimeInvisibleAnnotations(x) => x);
                self.annotations(r)?;
            }
            17 => {
                let r = want!(A::RuntimeVisibleParameterAnnotations(x) => x);
                self.param_annotations(r)?;
            }
            18 => {
                let r = want!(A::RuntimeInvisibleParameterAnnotations(x) => x);
                self.param_annotations(r)?;
            }
            19 => {
                let r = want!(A::RuntimeVisibleTypeAnnotations(x) => x);
                self.type_annotations(r)?;
            }
            20 => {
                let r = want!(A::RuntimeInvisibleTypeAnnotations(x) => x);
                self.type_annotations(r)?;
            }
            21 => {
                let r = want!(A::AnnotationDefault(x) => x);
                self.element_value(r)?;
            }
            22 => {
                let r = want!(A::BootstrapMethods(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1412)?;
                for k in 0..n {
                    let e = r.map(|r| &r[k]);
                    self.r_handle(e.map(|e| &e.method), 1413)?;
                    let na = self.len2(e.map(|e| e.arguments.len()), 1414)?;
                    for j in 0..na {
                        self.r_bootstrap_arg(e.map(|e| &e.arguments[j]), 1415)?;
                    }
                }
                return Ok(n);
            }
            23 => {
                let r = want!(A::MethodParameters(x) => x);
                let n = self.u1()? as usize;
                if let Some(r) = r {
                    ck!(r.len() == n, 1416);
                }
                for k in 0..n {
                    let e = r.map(|r| &r[k]);
                    let nm = self.r_utf_opt(e.map(|e| &e.name), 1417)?;
                    if nm != 0 && !unqualified(self.utf(nm)?) {
                        return Err(711);
                    }
                    let f = self.flags(0x9010)?;
                    if let Some(e) = e {
                        ck!(e.access_flags.bits() == f, 1418);
                    }
                }
            }
            24 => {
                let r = want!(A::Module(x) => x);
                self.module(r)?;
            }
            25 => {
                let r = want!(A::ModulePackages(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1419)?;
                for k in 0..n {
                    self.r_package(r.map(|r| &r[k]), 1420)?;
                }
            }
            26 => {
                let r = want!(A::ModuleMainClass(x) => x);
                fixed(2)?;
                self.r_class(r, 1421)?;
            }
            27 => {
                let r = want!(A::NestHost(x) => x);
                fixed(2)?;
                self.r_class(r, 1422)?;
            }
            28 => {
                let r = want!(A::NestMembers(x) => x);
                self.class_list(r, 1423)?;
            }
            29 => {
                let r = want!(A::PermittedSubclasses(x) => x);
                self.class_list(r, 1424)?;
            }
            30 => {
                let r = want!(A::Record(x) => x);
                let n = self.len2(r.map(|r| r.len()), 1425)?;
                for k in 0..n {
                    let e = r.map(|r| &r[k]);
                    let nm = self.r_utf(e.map(|e| &e.name), 1426)?;
                    if !unqualified(self.utf(nm)?) {
                        return Err(712);
                    }
                    self.field_d(e.map(|e| &e.descriptor), 1427)?;
                    self.attributes(e.map(|e| &e.attributes), None)?;
                }
            }
            _ => {
                let r = want!(A::Other(x) => x);
                let raw = self.take(len)?;
                if let Some(r) = r {
                    // the unknown attribute's own bytes, unchanged
                    ck!(same_bytes(r, raw), 1121);
                }
            }
        }
        Ok(0)
    }
    pub fn len2(&mut self, real: Option<usize>, code: u32) -> R<usize> {
        let n = self.u2()? as usize;
        if let Some(r) = real {
            ck!(r == n, code);
        }
        Ok(n)
    }
    fn flags(&mut self, allowed: u16) -> R<u16> {
        let f = self.u2()?;
        if f & !allowed != 0 {
            return Err(1450);
        }
        Ok(f)
    }
    fn class_list(&mut self, r: Option<&Vec<Cow<str>>>, code: u32) -> R<()> {
        let n = self.len2(r.map(|r| r.len()), code)?;
        for k in 0..n {
            self.r_class(r.map(|r| &r[k]), code)?;
        }
        Ok(())
    }

    // ---- Code ----
    #[inline(never)]
    fn code(&mut self, real: Option<&CodeData>) -> R<()> {
        let (s, l) = (self.u2()?, self.u2()?);
        let n = self.u4()? as usize;
        let code = self.take(n)?;
        if let Some(r) = real {
            ck!(r.max_stack == s && r.max_locals == l, 1220);
            ck!(r.code.len() == n && r.code.as_ptr() == code.as_ptr(), 1221);
        }
        if n == 0 || n > 65535 {
            // 4.7.3 demands 0 < code_length < 65536; the library does not check it
            self.lenient = true;
        }
        let ne = self.len2(real.map(|r| r.exception_table.len()), 1222)?;
        for k in 0..ne {
            let e = real.map(|r| &r.exception_table[k]);
            let (a, b, c) = (self.u2()?, self.u2()?, self.u2()?);
            if let Some(e) = e {
                ck!(e.start_pc == a && e.end_pc == b && e.handler_pc == c, 1223);
            }
            self.r_class_opt(e.map(|e| &e.catch_type), 1224)?;
        }
        self.attributes(real.map(|r| &r.attributes), None)?;
        if self.bytecode {
            let bc = match real {
                Some(r) => match &r.bytecode {
                    Some(b) => Some(b),
                    None => fail(1601),
                },
                None => None,
            };
            crate::code::check(self, code, bc)?;
        } else if let Some(r) = real {
            ck!(r.bytecode.is_none(), 1602);
        }
        Ok(())
    }
    fn vtype(&mut self, real: Option<&VerificationType>) -> R<()> {
        let t = self.u1()?;
        let mut off = 0;
        let mut cls = 0;
        match t {
            0..=6 => {}
            7 => {
                cls = self.u2()?;
                self.class(cls)?;
            }
            8 => off = self.u2()?,
            _ => return Err(1230),
        }
        if let Some(r) = real {
            use VerificationType as T;
            let k = match r {
                T::Top => 0,
                T::Integer => 1,
                T::Float => 2,
                T::Double => 3,
                T::Long => 4,
                T::Null => 5,
                T::UninitializedThis => 6,
                T::Object { class_name } => {
                    ck!(t == 7, 1231);
                    self.ck_class(cls, class_name, 1232);
                    7
                }
                T::Uninitialized { code_offset } => {
                    ck!(t == 8, 1231);
                    ck!(*code_offset == off, 1233);
                    8
                }
            };
            ck!(k == t, 1231);
        }
        Ok(())
    }
    fn vtypes(&mut self, n: usize, real: Option<&Vec<VerificationType>>) -> R<()> {
        if let Some(r) = real {
            ck!(r.len() == n, 1234);
        }
        for k in 0..n {
            self.vtype(real.map(|r| &r[k]))?;
        }
        Ok(())
    }
    #[inline(never)]
    fn stack_map(&mut self, real: Option<&Vec<StackMapEntry>>) -> R<()> {
        use StackMapEntry as S;
        let n = self.len2(real.map(|r| r.len()), 1240)?;
        for k in 0..n {
            let e = real.map(|r| &r[k]);
            let t = self.u1()?;
            if t < 64 {
                match e {
                    None => {}
                    Some(S::Same { offset_delta }) => ck!(*offset_delta == t as u16, 1241),
                    _ => fail(1242),
                }
            } else if t < 128 || t == 247 {
                let d = if t == 247 { self.u2()? } else { t as u16 - 64 };
                match e {
                    None => self.vtype(None)?,
                    Some(S::SameLocals1StackItem { offset_delta, stack }) => {
                        ck!(*offset_delta == d, 1243);
                        self.vtype(Some(stack))?;
                    }
                    _ => fail(1244),
                }
            } else if t < 247 {
                return Err(1250);
            } else {
                let d = self.u2()?;
                if t <= 250 {
                    match e {
                        None => {}
                        Some(S::Chop { offset_delta, chop_count }) => {
                            ck!(*offset_delta == d && *chop_count == 251 - t as u16, 1245)
                        }
                        _ => fail(1246),
                    }
                } else if t == 251 {
                    match e {
                        None => {}
                        Some(S::Same { offset_delta }) => ck!(*offset_delta == d, 1241),
                        _ => fail(1242),
                    }
                } else if t < 255 {
                    let l = match e {
                        None => None,
                        Some(S::Append { offset_delta, locals }) => {
                            ck!(*offset_delta == d, 1247);
                            Some(locals)
                        }
                        _ => fail(1248),
                    };
                    self.vtypes(t as usize - 251, l)?;
                } else {
                    let (l, s) = match e {
                        None => (None, None),
                        Some(S::FullFrame { offset_delta, locals, stack }) => {
                            ck!(*offset_delta == d, 1249);
                            (Some(locals), Some(stack))
                        }
                        _ => fail(1251),
                    };
                    let nl = self.u2()? as usize;
                    self.vtypes(nl, l)?;
                    let ns = self.u2()? as usize;
                    self.vtypes(ns, s)?;
                }
            }
        }
        Ok(())
    }

    // ---- annotations ----
    fn annotations(&mut self, r: Option<&Vec<Annotation>>) -> R<()> {
        let n = self.len2(r.map(|r| r.len()), 1301)?;
        for k in 0..n {
            self.annotation(r.map(|r| &r[k]))?;
        }
        Ok(())
    }
    fn param_annotations(&mut self, r: Option<&Vec<ParameterAnnotation>>) -> R<()> {
        let n = self.u1()? as usize;
        if let Some(r) = r {
            ck!(r.len() == n, 1302);
        }
        for k in 0..n {
            self.annotations(r.map(|r| &r[k].annotations))?;
        }
        Ok(())
    }
    #[inline(never)]
    fn annotation(&mut self, r: Option<&Annotation>) -> R<()> {
        self.field_d(r.map(|r| &r.type_descriptor), 1303)?;
        let n = self.len2(r.map(|r| r.elements.len()), 1304)?;
        for k in 0..n {
            let e = r.map(|r| &r.elements[k]);
            self.r_utf(e.map(|e| &e.name), 1305)?;
            self.element_value(e.map(|e| &e.value))?;
        }
        Ok(())
    }
    #[inline(never)]
    fn element_value(&mut self, r: Option<&AnnotationElementValue>) -> R<()> {
        use AnnotationElementValue as V;
        self.depth += 1;
        if self.depth > MAX_NEST {
            self.lenient = true;
            if self.depth > MAX_READ {
                return Err(TOO_DEEP);
            }
        }
        let tag = self.u1()?;
        match tag {
            b'B' | b'C' | b'I' | b'S' | b'Z' => {
                let ix = self.u2()?;
                let v = match self.at(ix)? {
                    ME::Int(v) => *v,
                    _ => return Err(1310),
                };
                if let Some(r) = r {
                    let (t, x) = match r {
                        V::ByteConstant(x) => (b'B', x),
                        V::CharConstant(x) => (b'C', x),
                        V::IntConstant(x) => (b'I', x),
                        V::ShortConstant(x) => (b'S', x),
                        V::BooleanConstant(x) => (b'Z', x),
                        _ => fail(1311),
                    };
                    ck!(t == tag && *x as u32 == v, 1312);
                }
            }
            b'D' => {
                let ix = self.u2()?;
                match (self.at(ix)?, r) {
                    (ME::Double(_), None) => {}
                    (ME::Double(v), Some(V::DoubleConstant(x))) => ck!(x.to_bits() == *v, 1313),
                    (ME::Double(_), _) => fail(1311),
                    _ => return Err(1314),
                }
            }
            b'F' => {
                let ix = self.u2()?;
                match (self.at(ix)?, r) {
                    (ME::Float(_), None) => {}
                    (ME::Float(v), Some(V::FloatConstant(x))) => ck!(x.to_bits() == *v, 1315),
                    (ME::Float(_), _) => fail(1311),
                    _ => return Err(1316),
                }
            }
            b'J' => {
                let ix = self.u2()?;
                match (self.at(ix)?, r) {
                    (ME::Long(_), None) => {}
                    (ME::Long(v), Some(V::LongConstant(x))) => ck!(*x as u64 == *v, 1317),
                    (ME::Long(_), _) => fail(1311),
                    _ => return Err(1318),
                }
            }
            b's' => {
                let s = match r {
                    None => None,
                    Some(V::StringConstant(s)) => Some(s),
                    _ => fail(1311),
                };
                self.r_utf(s, 1319)?;
            }
            b'e' => {
                let (t, c) = match r {
                    None => (None, None),
                    Some(V::EnumConstant { type_name, const_name }) => (Some(type_name), Some(const_name)),
                    _ => fail(1311),
                };
                self.field_d(t, 1320)?;
                self.r_utf(c, 1321)?;
            }
            b'c' => {
                let s = match r {
                    None => None,
                    Some(V::ClassLiteral { class_name }) => Some(class_name),
                    _ => fail(1311),
                };
                let ix = self.r_utf(s, 1322)?;
                let d = self.utf(ix)?;
                if d != b"V" {
                    match field_desc(d) {
                        None => return Err(808),
                        Some(f) => {
                            if f.either {
                                self.lenient = true
                            }
                        }
                    }
                }
            }
            b'@' => {
                let a = match r {
                    None => None,
                    Some(V::AnnotationValue(a)) => Some(a),
                    _ => fail(1311),
                };
                self.annotation(a)?;
            }
            b'[' => {
                let a = match r {
                    None => None,
                    Some(V::ArrayValue(a)) => Some(a),
                    _ => fail(1311),
                };
                let n = self.len2(a.map(|a| a.len()), 1323)?;
                for k in 0..n {
                    self.element_value(a.map(|a| &a[k]))?;
                }
            }
            _ => return Err(1324),
        }
        self.depth -= 1;
        Ok(())
    }
    #[inline(never)]
    fn type_annotations(&mut self, r: Option<&Vec<TypeAnnotation>>) -> R<()> {
        use TypeAnnotationTarget as T;
        let n = self.len2(r.map(|r| r.len()), 1330)?;
        for k in 0..n {
            let e = r.map(|r| &r[k]);
            let t = self.u1()?;
            let x = e.map(|e| &e.target_type);
            macro_rules! want {
                ($p:pat => $e:expr) => {
                    match x {
                        None => {}
                        Some($p) => ck!($e, 1332),
                        _ => fail(1331),
                    }
                };
            }
            match t {
                0 | 1 => {
                    let a = self.u1()?;
                    want!(T::TypeParameter { index } => *index == a);
                }
                0x10 => {
                    let a = self.u2()?;
                    want!(T::Supertype { index } => *index == a);
                }
                0x11 | 0x12 => {
                    let (a, b) = (self.u1()?, self.u1()?);
                    want!(T::TypeParameterBound { type_parameter_index, bound_index } => *type_parameter_index == a && *bound_index == b);
                }
                0x13 | 0x14 | 0x15 => want!(T::Empty => true),
                0x16 => {
                    let a = self.u1()?;
                    want!(T::FormalParameter { index } => *index == a);
                }
                0x17 => {
                    let a = self.u2()?;
                    want!(T::Throws { index } => *index == a);
                }
                0x40 | 0x41 => {
                    let v = match x {
                        None => None,
                        Some(T::LocalVar(v)) => Some(v),
                        _ => fail(1331),
                    };
                    let c = self.len2(v.map(|v| v.len()), 1333)?;
                    for j in 0..c {
                        let (a, b, d) = (self.u2()?, self.u2()?, self.u2()?);
                        if let Some(v) = v {
                            ck!(v[j].start_pc == a && v[j].length == b && v[j].index == d, 1334);
                        }
                    }
                }
                0x42 => {
                    let a = self.u2()?;
                    want!(T::Catch { exception_table_index } => *exception_table_index == a);
                }
                0x43..=0x46 => {
                    let a = self.u2()?;
                    want!(T::Offset { offset } => *offset == a);
                }
                0x47..=0x4B => {
                    let (a, b) = (self.u2()?, self.u1()?);
                    want!(T::TypeArgument { offset, type_argument_index } => *offset == a && *type_argument_index == b);
                }
                _ => return Err(1335),
            }
            let np = self.u1()? as usize;
            if let Some(e) = e {
                ck!(e.target_path.len() == np, 1336);
            }
            for j in 0..np {
                let (kind, arg) = (self.u1()?, self.u1()?);
                if kind > 3 {
                    return Err(1337);
                }
                if let Some(e) = e {
                    let p = &e.target_path[j];
                    let k2 = match p.path_kind {
                        TypeAnnotationTargetPathKind::DeeperArray => 0,
                        TypeAnnotationTargetPathKind::DeeperNested => 1,
                        TypeAnnotationTargetPathKind::WildcardTypeArgument => 2,
                        TypeAnnotationTargetPathKind::TypeArgument => 3,
                    };
                    ck!(k2 == kind && p.argument_index == arg, 1338);
                }
            }
            self.annotation(e.map(|e| &e.annotation))?;
        }
        Ok(())
    }

    // ---- Module ----
    #[inline(never)]
    fn module(&mut self, r: Option<&ModuleData>) -> R<()> {
        self.r_module(r.map(|r| &r.name), 1430)?;
        let f = self.flags(0x9020)?;
        if let Some(r) = r {
            ck!(r.access_flags.bits() == f, 1431);
        }
        self.r_utf_opt(r.map(|r| &r.version), 1432)?;
        let n = self.len2(r.map(|r| r.requires.len()), 1433)?;
        for k in 0..n {
            let e = r.map(|r| &r.requires[k]);
            self.r_module(e.map(|e| &e.name), 1434)?;
            let f = self.flags(0x9060)?;
            if let Some(e) = e {
                ck!(e.flags.bits() == f, 1435);
            }
            self.r_utf_opt(e.map(|e| &e.version), 1436)?;
        }
        let n = self.len2(r.map(|r| r.exports.len()), 1437)?;
        for k in 0..n {
            let e = r.map(|r| &r.exports[k]);
            self.r_package(e.map(|e| &e.package_name), 1438)?;
            let f = self.flags(0x9000)?;
            if let Some(e) = e {
                ck!(e.flags.bits() == f, 1439);
            }
            let c = self.len2(e.map(|e| e.exports_to.len()), 1440)?;
            for j in 0..c {
                self.r_module(e.map(|e| &e.exports_to[j]), 1441)?;
            }
        }
        let n = self.len2(r.map(|r| r.opens.len()), 1442)?;
        for k in 0..n {
            let e = r.map(|r| &r.opens[k]);
            self.r_package(e.map(|e| &e.package_name), 1443)?;
            let f = self.flags(0x9000)?;
            if let Some(e) = e {
                ck!(e.flags.bits() == f, 1444);
            }
            let c = self.len2(e.map(|e| e.opens_to.len()), 1445)?;
            for j in 0..c {
                self.r_module(e.map(|e| &e.opens_to[j]), 1446)?;
            }
        }
        self.class_list(r.map(|r| &r.uses), 1447)?;
        let n = self.len2(r.map(|r| r.provides.len()), 1448)?;
        for k in 0..n {
            let e = r.map(|r| &r.provides[k]);
            self.r_class(e.map(|e| &e.service_interface_name), 1449)?;
            self.class_list(e.map(|e| &e.provides_with), 1451)?;
        }
        Ok(())
    }
}

/// attribute names with a defined meaning
#[inline(never)]
fn known(n: &[u8]) -> u32 {
    const NAMES: [&[u8]; 30] = [
        b"ConstantValue",
        b"Code",
        b"StackMapTable",
        b"Exceptions",
        b"InnerClasses",
        b"EnclosingMethod",
        b"Synthetic",
        b"Signature",
        b"SourceFile",
        b"SourceDebugExtension",
        b"LineNumberTable",
        b"LocalVariableTable",
        b"LocalVariableTypeTable",
        b"Deprecated",
        b"RuntimeVisibleAnnotations",
        b"RuntimeInvisibleAnnotations",
        b"RuntimeVisibleParameterAnnotations",
        b"RuntimeInvisibleParameterAnnotations",
        b"RuntimeVisibleTypeAnnotations",
        b"RuntimeInvisibleTypeAnnotations",
        b"AnnotationDefault",
        b"BootstrapMethods",
        b"MethodParameters",
        b"Module",
        b"ModulePackages",
        b"ModuleMainClass",
        b"NestHost",
        b"NestMembers",
        b"PermittedSubclasses",
        b"Record",
    ];
    for (k, x) in NAMES.iter().enumerate() {
        if n == *x {
            return k as u32 + 1;
        }
    }
    0
}
