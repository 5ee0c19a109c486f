//! Class-file templates: concrete files built by a small assembler, with marked regions.  The
//! scenarios replace windows of the marked regions by symbolic bytes.

pub struct Mark {
    /// property whose region this is
    pub prop: u8,
    pub name: &'static str,
    pub start: usize,
    pub end: usize,
}

pub struct B {
    pool: Vec<u8>,
    n: u16,
    pub b: Vec<u8>,
    pub major: u16,
    pmarks: Vec<Mark>,
    bmarks: Vec<Mark>,
}

impl B {
    pub fn new(major: u16) -> B {
        let mut b = B { pool: Vec::new(), n: 1, b: Vec::new(), major, pmarks: Vec::new(), bmarks: Vec::new() };
        if SHIFTED.load(std::sync::atomic::Ordering::Relaxed) {
            for i in 0..300 {
                b.c4(3, i);
            }
        }
        b
    }
    // ---- pool ----
    fn p2(&mut self, x: u16) {
        self.pool.push((x >> 8) as u8);
        self.pool.push(x as u8);
    }
    fn next(&mut self) -> u16 {
        self.n += 1;
        self.n - 1
    }
    /// index the next constant will get
    pub fn peek(&self) -> u16 {
        self.n
    }
    #[inline(never)]
    pub fn utf(&mut self, s: &[u8]) -> u16 {
        self.pool.push(1);
        self.p2(s.len() as u16);
        self.pool.extend_from_slice(s);
        self.next()
    }
    /// a Utf8 constant whose content is a region
    pub fn utf_m(&mut self, prop: u8, name: &'static str, s: &[u8]) -> u16 {
        let st = self.pool.len() + 3;
        let r = self.utf(s);
        self.pmarks.push(Mark { prop, name, start: st, end: st + s.len() });
        r
    }
    /// mark everything a closure adds to the pool
    pub fn pm<T>(&mut self, prop: u8, name: &'static str, f: impl FnOnce(&mut B) -> T) -> T {
        let st = self.pool.len();
        let r = f(self);
        let end = self.pool.len();
        self.pmarks.push(Mark { prop, name, start: st, end });
        r
    }
    #[inline(never)]
    pub fn c4(&mut self, tag: u8, v: u32) -> u16 {
        self.pool.push(tag);
        self.p2((v >> 16) as u16);
        self.p2(v as u16);
        self.next()
    }
    pub fn c8(&mut self, tag: u8, v: u64) -> u16 {
        let r = self.c4(tag, (v >> 32) as u32);
        self.p2((v >> 16) as u16);
        self.p2(v as u16);
        self.n += 1;
        r
    }
    #[inline(never)]
    pub fn c1(&mut self, tag: u8, a: u16) -> u16 {
        self.pool.push(tag);
        self.p2(a);
        self.next()
    }
    #[inline(never)]
    pub fn c2(&mut self, tag: u8, a: u16, b: u16) -> u16 {
        self.pool.push(tag);
        self.p2(a);
        self.p2(b);
        self.next()
    }
    pub fn handle(&mut self, k: u8, r: u16) -> u16 {
        self.pool.push(15);
        self.pool.push(k);
        self.p2(r);
        self.next()
    }
    pub fn class(&mut self, s: &[u8]) -> u16 {
        let u = self.utf(s);
        self.c1(7, u)
    }
    pub fn string(&mut self, s: &[u8]) -> u16 {
        let u = self.utf(s);
        self.c1(8, u)
    }
    pub fn nat(&mut self, n: &[u8], d: &[u8]) -> u16 {
        let a = self.utf(n);
        let b = self.utf(d);
        self.c2(12, a, b)
    }
    pub fn member(&mut self, tag: u8, c: u16, n: &[u8], d: &[u8]) -> u16 {
        let m = self.nat(n, d);
        self.c2(tag, c, m)
    }
    // ---- body ----
    pub fn o1(&mut self, x: u8) {
        self.b.push(x);
    }
    #[inline(never)]
    pub fn o2(&mut self, x: u16) {
        self.b.push((x >> 8) as u8);
        self.b.push(x as u8);
    }
    #[inline(never)]
    pub fn o4(&mut self, x: u32) {
        self.o2((x >> 16) as u16);
        self.o2(x as u16);
    }
    pub fn oo(&mut self, x: &[u16]) {
        for v in x {
            self.o2(*v);
        }
    }
    pub fn bytes(&mut self, x: &[u8]) {
        self.b.extend_from_slice(x);
    }
    pub fn m<T>(&mut self, prop: u8, name: &'static str, f: impl FnOnce(&mut B) -> T) -> T {
        let start = self.b.len();
        let r = f(self);
        let end = self.b.len();
        self.bmarks.push(Mark { prop, name, start, end });
        r
    }
    pub fn attr_ix(&mut self, name: u16, f: impl FnOnce(&mut B)) {
        self.o2(name);
        self.o4(0);
        let st = self.b.len();
        f(self);
        let n = (self.b.len() - st) as u32;
        self.b[st - 4] = (n >> 24) as u8;
        self.b[st - 3] = (n >> 16) as u8;
        self.b[st - 2] = (n >> 8) as u8;
        self.b[st - 1] = n as u8;
    }
    pub fn attr(&mut self, name: &[u8], f: impl FnOnce(&mut B)) {
        let ix = self.utf(name);
        self.attr_ix(ix, f);
    }
    /// Code attribute: frame, code bytes, no exception table, attributes
    pub fn code(&mut self, code: &[u8], prop: u8, name: &'static str) {
        self.attr(b"Code", |b| {
            b.oo(&[4, 4]);
            b.o4(code.len() as u32);
            b.m(prop, name, |b| b.bytes(code));
            b.oo(&[0, 0]);
        });
    }
    /// flags, this, super, no interfaces
    pub fn head(&mut self, flags: u16) {
        let t = self.class(b"a/T");
        let s = self.class(b"a/S");
        self.oo(&[flags, t, s, 0]);
    }
    /// one method `m()V` with the given Code body
    pub fn method_head(&mut self, name: &[u8], desc: &[u8]) {
        let n = self.utf(name);
        let d = self.utf(desc);
        self.oo(&[1, n, d]);
    }
    pub fn finish(self) -> Tpl {
        let mut v = Vec::with_capacity(10 + self.pool.len() + self.b.len());
        v.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0]);
        v.push((self.major >> 8) as u8);
        v.push(self.major as u8);
        v.push((self.n >> 8) as u8);
        v.push(self.n as u8);
        let mut marks = Vec::new();
        for mut m in self.pmarks {
            m.start += 10;
            m.end += 10;
            marks.push(m);
        }
        let off = 10 + self.pool.len();
        for mut m in self.bmarks {
            m.start += off;
            m.end += off;
            marks.push(m);
        }
        v.extend_from_slice(&self.pool);
        v.extend_from_slice(&self.b);
        Tpl { bytes: v, marks }
    }
}

pub struct Tpl {
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
}

pub const NAMES: [&[u8]; 30] = [
    b"ConstantValue",
    b"Code",
    b"StackMapTable",
    b"Exceptions",
    b"InnerClasses",
    b"EnclosingMethod",
    b"Synthetic",
    b"Signature",
    b"SourceFile",
    b"SourceDebugExtension",
    b"LineNumberTable",
    b"LocalVariableTable",
    b"LocalVariableTypeTable",
    b"Deprecated",
    b"RuntimeVisibleAnnotations",
    b"RuntimeInvisibleAnnotations",
    b"RuntimeVisibleParameterAnnotations",
    b"RuntimeInvisibleParameterAnnotations",
    b"RuntimeVisibleTypeAnnotations",
    b"RuntimeInvisibleTypeAnnotations",
    b"AnnotationDefault",
    b"BootstrapMethods",
    b"MethodParameters",
    b"Module",
    b"ModulePackages",
    b"ModuleMainClass",
    b"NestHost",
    b"NestMembers",
    b"PermittedSubclasses",
    b"Record",
];

/// every kind of constant, with forward and backward references
fn pool(major: u16) -> Tpl {
    let mut b = B::new(major);
    let (t, f, m, im);
    t = b.pm(5, "pool-a", |b| {
        // forward reference: the class constant precedes its name
        let p = b.peek();
        let t = b.c1(7, p + 1);
        b.utf(b"a/T");
        b.c4(3, 0x8000_0001);
        b.c4(4, 0x7fc0_0001);
        b.c8(5, 0x8000_0000_0000_0001);
        b.c8(6, 0x7ff8_0000_0000_0001);
        b.string(b"s");
        t
    });
    (f, m, im) = b.pm(5, "pool-b", |b| {
        (b.member(9, t, b"f", b"I"), b.member(10, t, b"m", b"()V"), b.member(11, t, b"<init>", b"(I[J)La;"))
    });
    b.pm(5, "pool-c", |b| {
        let d = b.utf(b"()V");
        if major >= 51 {
            b.handle(1, f);
            b.handle(5, m);
            b.handle(9, im);
            b.handle(if major >= 52 { 6 } else { 7 }, if major >= 52 { im } else { m });
            b.c1(16, d);
            let n = b.nat(b"d", b"()I");
            b.c2(18, 0, n);
        }
        if major >= 55 {
            let n = b.nat(b"c", b"J");
            b.c2(17, 1, n);
        }
        if major >= 53 {
            let u = b.utf(b"mo.d");
            b.c1(19, u);
            let u = b.utf(b"p/q");
            b.c1(20, u);
        }
    });
    let s = b.class(b"[[I");
    b.oo(&[0x21, t, t, 1, t, 0, 0]);
    if major >= 51 {
        b.oo(&[1]);
        let h = b.handle(5, m);
        b.attr(b"BootstrapMethods", |b| b.oo(&[2, h, 1, s, h, 0]));
    } else {
        b.oo(&[0]);
    }
    b.finish()
}

/// header, this/super/interfaces, fields and methods with flags
fn header(major: u16, flags: u16) -> Tpl {
    let mut b = B::new(major);
    let t = b.class(b"a/T");
    let s = b.class(b"S");
    let i = b.class(b"I");
    b.class(b"[LQ;");
    let c = b.c4(3, 7);
    let (x, y, d, e, md, me) = (b.utf(b"x"), b.utf(b"y"), b.utf(b"I"), b.utf(b"J"), b.utf(b"()V"), b.utf(b"(I)I"));
    let (init, cl) = (b.utf(b"<init>"), b.utf(b"<clinit>"));
    let cv = b.utf(b"ConstantValue");
    let dep = b.utf(b"Deprecated");
    b.m(4, "class-flags", |b| b.o2(flags));
    b.m(4, "this-super", |b| b.oo(&[t, s]));
    b.m(4, "interfaces", |b| b.oo(&[2, s, i]));
    b.m(15, "fields", |b| {
        b.oo(&[2, 2, x, d, 1]);
        b.attr_ix(cv, |b| b.o2(c));
        b.oo(&[0x0018, x, e, 1]);
        b.attr_ix(dep, |_| {});
    });
    b.m(15, "methods", |b| {
        b.o2(4);
        b.oo(&[1, x, md, 0]);
        b.oo(&[0x0401, x, me, 0]);
        b.oo(&[1, if flags & 0x200 == 0 { init } else { y }, md, 1]);
        b.attr_ix(dep, |_| {});
        b.oo(&[8, cl, md, 0]);
    });
    b.m(11, "class-attrs", |b| b.o2(0));
    b.finish()
}

/// names of every kind with six-byte contents
fn names() -> Tpl {
    let mut b = B::new(61);
    let un = b.utf_m(7, "class-name", b"ab/cde");
    let t = b.c1(7, un);
    let s = b.class(b"S");
    let arr = b.utf_m(7, "class-constant", b"[Labc;");
    b.c1(7, arr);
    let n = b.utf_m(7, "nat-name", b"<init>");
    let d = b.utf(b"()V");
    b.c2(12, n, d);
    let u = b.utf_m(7, "module-name", b"a.\\:bc");
    b.c1(19, u);
    let u = b.utf_m(7, "package-name", b"ab/c/d");
    b.c1(20, u);
    b.oo(&[0x21, t, s, 0]);
    // field and method
    let fname = b.utf_m(7, "field-name", b"fabcde");
    let fd = b.utf(b"I");
    b.oo(&[1, 1, fname, fd, 0]);
    let mname = b.utf_m(7, "method-name", b"<init>");
    b.oo(&[1, 1, mname, d, 2]);
    let ln = b.utf_m(7, "local-name", b"labcde");
    let tn = b.utf_m(7, "local-type-name", b"tabcde");
    b.attr(b"Code", |b| {
        b.oo(&[0, 0, 0, 1, 0xB100]);
        b.b.pop();
        b.oo(&[0, 2]);
        b.attr(b"LocalVariableTable", |b| b.oo(&[1, 0, 1, ln, fd, 0]));
        b.attr(b"LocalVariableTypeTable", |b| b.oo(&[1, 0, 1, tn, fd, 0]));
    });
    let pn = b.utf_m(7, "parameter-name", b"pabcde");
    b.attr(b"MethodParameters", |b| {
        b.o1(1);
        b.oo(&[pn, 0x10]);
    });
    b.o2(1);
    let rn = b.utf_m(7, "component-name", b"rabcde");
    b.attr(b"Record", |b| b.oo(&[1, rn, fd, 0]));
    b.finish()
}

/// method names with room for `<clinit>`, in a class or an interface
fn method_names(flags: u16, desc: &[u8], major: u16) -> Tpl {
    let mut b = B::new(major);
    b.head(flags);
    b.oo(&[0, 1]);
    let n = b.utf_m(7, "method-name-long", if flags & 0x200 != 0 { b"<clinit>" } else { b"methodxx" });
    let d = b.utf(desc);
    b.oo(&[8, n, d, 0, 0]);
    b.finish()
}

/// descriptors of every kind
fn descriptors() -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let s = b.class(b"S");
    let q = b.utf_m(8, "array-class", b"[[La;");
    let arr = b.c1(7, q);
    let n = b.utf(b"n");
    let d = b.utf_m(8, "fieldref", b"[La;");
    let m = b.c2(12, n, d);
    b.c2(9, t, m);
    let d = b.utf_m(8, "methodref", b"(IJ)V");
    let m = b.c2(12, n, d);
    b.c2(10, t, m);
    let d = b.utf_m(8, "imethodref", b"()La;");
    let m = b.c2(12, n, d);
    b.c2(11, t, m);
    let d = b.utf_m(8, "methodtype", b"([I)I");
    b.c1(16, d);
    let d = b.utf_m(8, "dynamic", b"[[[Z");
    let m = b.c2(12, n, d);
    b.c2(17, 0, m);
    let d = b.utf_m(8, "invokedynamic", b"(C)I");
    let m = b.c2(12, n, d);
    b.c2(18, 0, m);
    let h = b.member(10, t, b"bsm", b"()V");
    let h = b.handle(6, h);
    b.oo(&[0x21, t, s, 0]);
    let fd = b.utf_m(8, "field", b"[Lab;");
    let x = b.utf(b"fx");
    b.oo(&[1, 1, x, fd, 0]);
    let md = b.utf_m(8, "method", b"(ILa;)V");
    b.oo(&[1, 1, n, md, 1]);
    let i = b.utf(b"I");
    let ld = b.utf_m(8, "local", b"[Lab;");
    b.attr(b"Code", |b| {
        b.oo(&[0, 0]);
        b.o4(5);
        b.bytes(&[0xc0]);
        b.o2(arr);
        b.bytes(&[0x57, 0xb1]);
        b.oo(&[0, 1]);
        b.attr(b"LocalVariableTable", |b| b.oo(&[1, 0, 1, n, ld, 0]));
    });
    b.o2(3);
    b.attr(b"BootstrapMethods", |b| b.oo(&[1, h, 0]));
    let rd = b.utf_m(8, "component", b"[Lab;");
    b.attr(b"Record", |b| b.oo(&[1, n, rd, 0]));
    let ad = b.utf_m(8, "annotation", b"Lab;");
    let ed = b.utf_m(8, "enum", b"Lab;");
    let cd = b.utf_m(8, "class-value", b"Lab;");
    let _ = i;
    b.attr(b"RuntimeVisibleAnnotations", |b| {
        b.oo(&[1, ad, 2, n]);
        b.o1(b'e');
        b.oo(&[ed, n, n]);
        b.o1(b'c');
        b.o2(cd);
    });
    b.finish()
}

/// the smallest file with one field / one method of a given descriptor
fn one_descriptor(method: bool, d: &[u8]) -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let n = b.utf(b"n");
    let d = b.utf_m(8, if method { "method-only" } else { "field-only" }, d);
    if method {
        b.oo(&[0, 1, 1, n, d, 0, 0]);
    } else {
        b.oo(&[1, 1, n, d, 0, 0, 0]);
    }
    b.finish()
}

/// string constants: literals, names, debug extension
fn strings(content: &[u8]) -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let u = b.utf_m(6, "literal", content);
    b.c1(8, u);
    let x = b.utf_m(6, "member-name", b"abcdef");
    let d = b.utf(b"I");
    b.oo(&[1, 1, x, d, 0, 0, 1]);
    b.attr(b"SourceDebugExtension", |b| b.m(6, "debug-extension", |b| b.bytes(b"debugx")));
    b.finish()
}

fn rest_of_code(b: &mut B, code: &[u8], prop: u8, name: &'static str) {
    b.o2(0);
    b.o2(1);
    b.method_head(b"m", b"()V");
    b.o2(1);
    b.code(code, prop, name);
    b.o2(0);
}

fn code_pool(b: &mut B) -> [u16; 12] {
    let t = b.class(b"a/T");
    let a = b.class(b"[[I");
    let i = b.c4(3, 5);
    let l = b.c8(5, 9);
    let s = b.string(b"x");
    let f = b.member(9, t, b"f", b"I");
    let m = b.member(10, t, b"m", b"()V");
    let im = b.member(11, t, b"im", b"()V");
    let h = b.handle(6, m);
    let u = b.utf(b"()V");
    let mt = b.c1(16, u);
    let n = b.nat(b"c", b"J");
    let dy = b.c2(17, 0, n);
    let n = b.nat(b"d", b"()I");
    let id = b.c2(18, 0, n);
    [t, a, i, l, s, f, m, im, h, mt, dy, id]
}

/// instructions with constant-pool operands
fn code_refs(major: u16) -> Tpl {
    let mut b = B::new(major);
    let [t, a, i, l, s, f, m, im, h, mt, dy, id] = code_pool(&mut b);
    b.oo(&[0x21, t, t, 0]);
    let mut c = vec![0x12, i as u8, 0x12, s as u8];
    let mut op = |o: u8, ix: u16, rest: &[u8]| {
        c.push(o);
        c.push((ix >> 8) as u8);
        c.push(ix as u8);
        c.extend_from_slice(rest);
    };
    op(0x13, h, &[]);
    op(0x13, mt, &[]);
    op(0x14, l, &[]);
    op(0x14, dy, &[]);
    op(0xb2, f, &[]);
    op(0xb3, f, &[]);
    op(0xb4, f, &[]);
    op(0xb5, f, &[]);
    op(0xb6, m, &[]);
    op(0xb7, m, &[]);
    op(0xb8, im, &[]);
    op(0xb9, im, &[1, 0]);
    op(0xba, id, &[0, 0]);
    op(0xbb, t, &[]);
    op(0xbd, a, &[]);
    op(0xc0, t, &[]);
    op(0xc1, a, &[]);
    op(0xc5, a, &[2]);
    c.push(0xb1);
    b.o2(0);
    b.o2(1);
    b.method_head(b"m", b"()V");
    b.o2(1);
    b.code(&c, 9, "code-refs");
    b.o2(1);
    b.attr(b"BootstrapMethods", |b| b.oo(&[1, h, 0]));
    b.finish()
}

/// plain instructions: constants, locals, wide, arithmetic
fn code_plain() -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let c = [
        0x10, 0x85, 0x11, 0xfe, 0x01, 0x15, 0x07, 0x3a, 0xff, 0x84, 0x03, 0xfb, 0xbc, 0x0a, 0xc4, 0x19, 0x01, 0x00, 0xc4, 0x84, 0x01, 0x02,
        0xff, 0x80, 0xa9, 0x01, 0x1b, 0x44, 0x60, 0xc4, 0xa9, 0x12, 0x34, 0xb1,
    ];
    rest_of_code(&mut b, &c, 9, "code-plain");
    b.finish()
}

/// branches of both widths over instructions of different lengths
fn code_jumps() -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let c = [
        0x00, 0x99, 0x00, 0x06, 0x10, 0x01, 0x57, 0xa7, 0xff, 0xf9, 0xc8, 0x00, 0x00, 0x00, 0x08, 0x11, 0x00, 0x00, 0xa8, 0xff, 0xfd, 0xc9,
        0xff, 0xff, 0xff, 0xf5, 0xc6, 0x00, 0x03, 0xc7, 0xff, 0xfd, 0xb1,
    ];
    rest_of_code(&mut b, &c, 10, "code-jumps");
    b.finish()
}

/// a switch instruction behind `lead` one-byte instructions
fn code_switch(lead: usize, lookup: bool) -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let mut c = vec![0x03u8; lead];
    let at = c.len();
    c.push(if lookup { 0xab } else { 0xaa });
    while c.len() % 4 != 0 {
        c.push(0);
    }
    let i4 = |c: &mut Vec<u8>, v: i32| c.extend_from_slice(&v.to_be_bytes());
    let st = c.len();
    let n = if lookup { 8 + 16 } else { 12 + 12 };
    let end = (st + n - at) as i32;
    i4(&mut c, end);
    if lookup {
        i4(&mut c, 2);
        i4(&mut c, -3);
        i4(&mut c, end + 1);
        i4(&mut c, 70000);
        i4(&mut c, 0);
    } else {
        i4(&mut c, -1);
        i4(&mut c, 1);
        i4(&mut c, end);
        i4(&mut c, end + 1);
        i4(&mut c, 0);
    }
    c.extend_from_slice(&[0x57, 0xb1]);
    rest_of_code(&mut b, &c, 9, if lookup { "lookupswitch" } else { "tableswitch" });
    b.finish()
}

/// tables attached to code
fn code_tables() -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let n = b.utf(b"v");
    let d = b.utf(b"[I");
    b.oo(&[0x21, t, t, 0, 0, 1]);
    b.method_head(b"m", b"()V");
    b.o2(1);
    b.attr(b"Code", |b| {
        b.m(12, "max", |b| b.oo(&[0x102, 0x304]));
        b.m(12, "code-length", |b| b.o4(4));
        b.bytes(&[0, 0, 0, 0xb1]);
        b.m(12, "exceptions", |b| b.oo(&[2, 0, 1, 2, t, 0x101, 0x202, 0x303, 0]));
        b.o2(4);
        b.attr(b"LineNumberTable", |b| b.m(12, "lines", |b| b.oo(&[2, 0, 0x10a, 2, 11])));
        b.attr(b"LocalVariableTable", |b| b.m(12, "locals", |b| b.oo(&[1, 0, 0x104, n, d, 0x203])));
        b.attr(b"LocalVariableTypeTable", |b| b.m(12, "local-types", |b| b.oo(&[1, 1, 0x103, n, d, 0x102])));
        b.attr(b"StackMapTable", |b| {
            b.m(12, "frames", |b| {
                b.o2(11);
                b.o1(7);
                b.bytes(&[65, 1]);
                b.bytes(&[127, 8, 1, 2]);
                b.bytes(&[247, 1, 2, 7]);
                b.o2(t);
                b.bytes(&[248, 0, 1]);
                b.bytes(&[250, 1, 0]);
                b.bytes(&[251, 2, 1]);
                b.bytes(&[252, 0, 3, 0]);
                b.bytes(&[254, 0, 3, 2, 3, 4]);
                b.bytes(&[255, 0, 9, 0, 2, 5, 6, 0, 1, 7]);
                b.o2(t);
                b.bytes(&[255, 0, 1, 0, 0, 0, 0]);
            })
        });
    });
    b.o2(0);
    b.finish()
}

/// annotations of every kind
fn annotations() -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let ty = b.utf(b"La/A;");
    let en = b.utf(b"e");
    let i = b.c4(3, 5);
    let f = b.c4(4, 0x3f80_0000);
    let l = b.c8(5, 6);
    let d = b.c8(6, 0x4000_0000_0000_0000);
    let v = b.utf(b"V");
    b.oo(&[0, 1]);
    b.method_head(b"m", b"(I)V");
    b.o2(5);
    b.attr(b"RuntimeVisibleAnnotations", |b| {
        b.m(13, "annotations", |b| {
            b.oo(&[2, ty, 0, ty, 12]);
            for c in b"BCISZ" {
                b.o2(en);
                b.o1(*c);
                b.o2(i);
            }
            for (c, x) in [(b'D', d), (b'F', f), (b'J', l), (b's', en), (b'c', v)] {
                b.o2(en);
                b.o1(c);
                b.o2(x);
            }
            b.o2(en);
            b.o1(b'e');
            b.oo(&[ty, en]);
            b.o2(en);
            b.o1(b'[');
            b.o2(2);
            b.o1(b'@');
            b.oo(&[ty, 1, en]);
            b.o1(b's');
            b.o2(v);
            b.o1(b'[');
            b.o2(0);
        })
    });
    b.attr(b"RuntimeInvisibleAnnotations", |b| b.m(13, "invisible", |b| b.oo(&[1, ty, 0])));
    b.attr(b"RuntimeVisibleParameterAnnotations", |b| {
        b.m(13, "parameters", |b| {
            b.o1(2);
            b.oo(&[0, 1, ty, 0]);
        })
    });
    b.attr(b"RuntimeInvisibleParameterAnnotations", |b| {
        b.m(13, "invisible-parameters", |b| {
            b.o1(1);
            b.oo(&[1, ty, 0]);
        })
    });
    b.attr(b"AnnotationDefault", |b| {
        b.m(13, "default", |b| {
            b.o1(b'[');
            b.o2(1);
            b.o1(b'I');
            b.o2(i);
        })
    });
    b.o2(0);
    b.finish()
}

fn type_annotations() -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let ty = b.utf(b"La/A;");
    b.oo(&[0, 0, 2]);
    b.attr(b"RuntimeVisibleTypeAnnotations", |b| {
        b.m(13, "type-annotations", |b| {
            b.o2(13);
            let list: [&[u8]; 12] = [
                &[0, 1],
                &[1, 2],
                &[0x10, 0xff, 0xff],
                &[0x11, 1, 2],
                &[0x12, 3, 4],
                &[0x13],
                &[0x16, 5],
                &[0x17, 0, 6],
                &[0x40, 0, 1, 0, 1, 0, 2, 0, 3],
                &[0x42, 0, 7],
                &[0x43, 1, 8],
                &[0x47, 0, 9, 1],
            ];
            for x in list {
                b.bytes(x);
                b.o1(0);
                b.oo(&[ty, 0]);
            }
            b.bytes(&[0x4b, 0, 9, 2, 3, 0, 0, 3, 1, 2, 0]);
            b.oo(&[ty, 0]);
        })
    });
    b.attr(b"RuntimeInvisibleTypeAnnotations", |b| {
        b.m(13, "invisible-type-annotations", |b| {
            b.o2(1);
            b.bytes(&[0x15, 1, 1, 0]);
            b.oo(&[ty, 0]);
        })
    });
    b.finish()
}

fn module() -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"module-info");
    let c = b.class(b"a/C");
    let x = b.class(b"a/D");
    let u = b.utf(b"m.a");
    let m = b.c1(19, u);
    let u = b.utf(b"m.b");
    let n = b.c1(19, u);
    let u = b.utf(b"p/q");
    let p = b.c1(20, u);
    let v = b.utf(b"1.0");
    b.m(14, "module-head", |b| b.oo(&[0x8000, t, 0, 0, 0, 0]));
    b.o2(3);
    b.attr(b"Module", |b| {
        b.m(14, "module", |b| {
            b.oo(&[m, 0x8020, v]);
            b.oo(&[2, n, 0x0040, v, m, 0, 0]);
            b.oo(&[2, p, 0x1000, 2, m, n, p, 0, 0]);
            b.oo(&[1, p, 0x8000, 1, n]);
            b.oo(&[2, c, x]);
            b.oo(&[1, c, 2, x, c]);
        })
    });
    b.attr(b"ModulePackages", |b| b.m(14, "module-packages", |b| b.oo(&[2, p, p])));
    b.attr(b"ModuleMainClass", |b| b.m(14, "module-main", |b| b.oo(&[c])));
    b.finish()
}

fn class_attrs() -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let c = b.class(b"a/C");
    let n = b.utf(b"n");
    let d = b.utf(b"I");
    let nt = b.nat(b"m", b"()V");
    let mr = b.c2(10, c, nt);
    let h = b.handle(6, mr);
    let i = b.c4(3, 1);
    let l = b.c8(5, 1);
    let s = b.string(b"lit");
    let u = b.utf(b"()V");
    let mt = b.c1(16, u);
    b.oo(&[0x21, t, c, 0, 1]);
    b.oo(&[1, n, d, 2]);
    b.attr(b"ConstantValue", |b| b.m(14, "constant-value", |b| b.o2(i)));
    b.attr(b"Synthetic", |_| {});
    b.o2(1);
    b.oo(&[1, n, u, 2]);
    b.attr(b"Exceptions", |b| b.m(14, "exceptions", |b| b.oo(&[2, c, t])));
    b.attr(b"MethodParameters", |b| {
        b.m(14, "method-parameters", |b| {
            b.o1(2);
            b.oo(&[n, 0x8010, 0, 0x1000]);
        })
    });
    b.o2(11);
    b.attr(b"InnerClasses", |b| b.m(14, "inner-classes", |b| b.oo(&[2, t, c, n, 0x4009, c, 0, 0, 0xffff])));
    b.attr(b"EnclosingMethod", |b| b.m(14, "enclosing", |b| b.oo(&[c, nt])));
    b.attr(b"Signature", |b| b.m(14, "signature", |b| b.o2(n)));
    b.attr(b"SourceFile", |b| b.m(14, "source-file", |b| b.o2(n)));
    b.attr(b"Deprecated", |_| {});
    b.attr(b"BootstrapMethods", |b| b.m(14, "bootstrap", |b| b.oo(&[2, h, 6, i, l, s, c, h, mt, h, 0])));
    b.attr(b"NestHost", |b| b.m(14, "nest-host", |b| b.o2(c)));
    b.attr(b"NestMembers", |b| b.m(14, "nest-members", |b| b.oo(&[2, c, t])));
    b.attr(b"PermittedSubclasses", |b| b.m(14, "permitted", |b| b.oo(&[1, t])));
    b.attr(b"Record", |b| {
        b.m(14, "record", |b| {
            b.oo(&[2, n, d, 1]);
            b.attr(b"Signature", |b| b.o2(n));
            b.oo(&[n, d, 0]);
        })
    });
    b.attr(b"x.Unknown", |b| b.m(11, "unknown", |b| b.bytes(&[1, 2, 3])));
    b.finish()
}

/// one class attribute; every known name is in the pool so a symbolic index reaches all of them
fn any_attr(body: &[u8]) -> Tpl {
    let mut b = B::new(61);
    let mut first = 0;
    for (k, n) in NAMES.iter().enumerate() {
        let ix = b.utf(n);
        if k == 0 {
            first = ix;
        }
    }
    let other = b.utf(b"Other");
    // 32..: one constant of each kind an attribute can refer to
    b.c4(3, 1);
    let t = b.class(b"T");
    b.utf(b"I");
    let d = b.nat(b"n", b"()V");
    let m = b.c2(10, t, d);
    b.handle(6, m);
    let u = b.utf(b"m");
    b.c1(19, u);
    let u = b.utf(b"p");
    b.c1(20, u);
    let _ = first;
    b.oo(&[0x21, t, 0, 0, 0, 0, 1]);
    b.m(11, "any-attribute", |b| b.attr_ix(other, |b| b.bytes(body)));
    b.finish()
}

/// attribute frames nested in each place that has them
fn frames() -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let n = b.utf(b"n");
    let d = b.utf(b"I");
    let (dep, o, code, rec) = (b.utf(b"Deprecated"), b.utf(b"O"), b.utf(b"Code"), b.utf(b"Record"));
    let md = b.utf(b"()V");
    b.m(11, "attribute-frames", |b| {
        b.oo(&[1, 1, n, d, 2]);
        b.attr_ix(dep, |_| {});
        b.attr_ix(o, |b| b.bytes(&[9]));
        b.oo(&[1, 1, n, md, 1]);
        b.attr_ix(code, |b| {
            b.oo(&[0, 0]);
            b.o4(1);
            b.bytes(&[0xb1]);
            b.oo(&[0, 2]);
            b.attr_ix(o, |b| b.bytes(&[8, 7]));
            b.attr_ix(dep, |_| {});
        });
        b.oo(&[2]);
        b.attr_ix(rec, |b| {
            b.oo(&[1, n, d, 2]);
            b.attr_ix(o, |_| {});
            b.attr_ix(dep, |_| {});
        });
        b.attr_ix(o, |b| b.bytes(&[1, 2, 3, 4]));
    });
    b.finish()
}

/// more than 255 constants, interfaces, lines and locals
fn large() -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let first = b.peek();
    for i in 0..300u32 {
        b.c4(3, i * 0x10001);
    }
    let s = b.class(b"late/S");
    let li = b.c4(3, 77);
    b.oo(&[0x21, t]);
    b.m(4, "late-super", |b| b.oo(&[s]));
    b.o2(260);
    for k in 0..260 {
        b.o2(if k % 2 == 0 { s } else { t });
    }
    b.o2(0);
    b.o2(1);
    b.method_head(b"m", b"()V");
    b.o2(1);
    b.attr(b"Code", |b| {
        b.oo(&[4, 4]);
        let mut c = vec![0x13, (li >> 8) as u8, li as u8, 0x12, (first + 200) as u8];
        c.push(0xb1);
        b.o4(c.len() as u32);
        b.m(9, "late-constants", |b| b.bytes(&c));
        b.o2(0);
        b.o2(1);
        b.attr(b"LineNumberTable", |b| {
            b.m(12, "many-lines", |b| {
                b.o2(270);
                for i in 0..270u16 {
                    b.oo(&[i, i * 3]);
                }
            })
        });
    });
    b.o2(0);
    b.finish()
}

/// a code array beyond the reach of 16-bit offsets, mostly one table switch
fn long_code() -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let n = 9000i32;
    let mut c: Vec<u8> = vec![0, 0, 0, 0xaa];
    let i4 = |c: &mut Vec<u8>, v: i32| c.extend_from_slice(&v.to_be_bytes());
    i4(&mut c, 0);
    i4(&mut c, -4000);
    i4(&mut c, -4000 + n - 1);
    for k in 0..n {
        i4(&mut c, if k % 2 == 0 { -3 } else { 0 });
    }
    c.push(0x57);
    let tail = c.len();
    c.extend_from_slice(&[0xc8, 0xff, 0xff, 0x73, 0x4f]);
    let off = -(tail as i32);
    c[tail + 1..tail + 5].copy_from_slice(&off.to_be_bytes());
    c.extend_from_slice(&[0xa7, 0xff, 0xfb, 0xb1]);
    b.o2(0);
    b.o2(1);
    b.method_head(b"m", b"()V");
    b.o2(1);
    b.attr(b"Code", |b| {
        b.oo(&[4, 4]);
        b.o4(c.len() as u32);
        b.bytes(&c[..tail]);
        b.m(10, "far-jumps", |b| b.bytes(&c[tail..]));
        b.oo(&[0, 0]);
    });
    b.o2(0);
    b.finish()
}

/// long strings and the largest number of array dimensions
fn long_strings() -> Tpl {
    let mut b = B::new(61);
    let mut d = vec![b'['; 254];
    d.extend_from_slice(b"[I");
    let desc = b.utf(&d);
    let lit = vec![b'x'; 300];
    b.string(&lit);
    let mut lit2 = vec![b'y'; 33000];
    lit2[32999] = b'z';
    b.string(&lit2);
    b.head(0x21);
    let n = b.utf(b"n");
    b.oo(&[1, 1, n]);
    b.m(8, "long-descriptor", |b| b.o2(desc));
    b.oo(&[0, 0, 0]);
    b.finish()
}

/// `n` dimensions in front of two bytes of descriptor
fn dims(n: usize) -> Tpl {
    let mut d = vec![b'['; n];
    d.extend_from_slice(b"La;");
    let mut b = B::new(61);
    b.head(0x21);
    let x = b.utf(b"n");
    let st = b.pool.len() + 3 + n;
    let d = b.utf(&d);
    b.pmarks.push(Mark { prop: 8, name: "many-dimensions", start: st - 2, end: st + 3 });
    let md = b.utf(b"([[I)V");
    b.oo(&[1, 1, x, d, 0, 1, 1, x, md, 0, 0]);
    b.finish()
}

/// annotation values nested `n` deep
fn deep_annotation(n: usize) -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let i = b.c4(3, 1);
    b.oo(&[0, 1]);
    b.method_head(b"m", b"()I");
    b.o2(1);
    b.attr(b"AnnotationDefault", |b| {
        for _ in 0..n {
            b.o1(b'[');
            b.o2(1);
        }
        b.m(3, "deep-annotation", |b| {
            b.o1(b'I');
            b.o2(i);
        })
    });
    b.o2(0);
    b.finish()
}

/// Record or Code attributes nested `n` deep
fn deep_attributes(n: usize, code: bool) -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let x = b.utf(b"n");
    let d = b.utf(b"I");
    let name = b.utf(if code { b"Code" } else { b"Record" });
    let dep = b.utf(b"Deprecated");
    b.oo(&[0, 0]);
    // sizes from the inside out
    let inner = 2 + 6;
    let over = if code { 6 + 2 + 2 + 4 + 1 + 2 + 2 } else { 6 + 2 + 2 + 2 + 2 };
    let mut size = inner + n * over;
    for _ in 0..n {
        b.o2(1);
        b.o2(name);
        size -= 8;
        b.o4(size as u32);
        if code {
            b.oo(&[0, 0]);
            b.o4(1);
            b.o1(0xb1);
            b.o2(0);
            size -= 11;
        } else {
            b.oo(&[1, x, d]);
            size -= 6;
        }
    }
    b.m(3, if code { "deep-code" } else { "deep-record" }, |b| {
        b.oo(&[1, dep, 0, 0]);
    });
    b.finish()
}

/// a chain of `n` NameAndType constants referring to each other
fn chain(n: usize, forward: bool) -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"T");
    let x = b.utf(b"()V");
    let p = b.peek();
    for k in 0..n as u16 {
        let next = if forward {
            if k + 1 == n as u16 {
                x
            } else {
                p + k + 1
            }
        } else if k == 0 {
            x
        } else {
            p + k - 1
        };
        b.c2(12, x, next);
    }
    let end = p + n as u16 - 1;
    b.pm(3, "reference-chain", |b| b.c2(10, t, if forward { p } else { end }));
    b.oo(&[0x21, t, 0, 0, 0, 0, 0]);
    b.finish()
}

/// class-level rules: two bootstrap users, attribute count variations
fn bootstrap(count: u16) -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let n = b.nat(b"d", b"()I");
    b.pm(15, "bootstrap-user", |b| b.c2(18, 0, n));
    let n = b.nat(b"c", b"J");
    b.pm(15, "bootstrap-user-dynamic", |b| b.c2(17, 1, n));
    let m = b.member(10, t, b"m", b"()V");
    let h = b.handle(6, m);
    b.oo(&[0x21, t, 0, 0, 0, 0]);
    let name = b.utf(b"BootstrapMethods");
    let other = b.utf(b"BootstrapMethodz");
    let _ = other;
    b.m(15, "bootstrap-attributes", |b| {
        b.o2(count);
        for _ in 0..count {
            b.attr_ix(name, |b| b.oo(&[2, h, 0, h, 0]));
        }
    });
    b.finish()
}

/// duplicate detection and special methods: names and descriptors selected by index
fn members(major: u16, flags: u16) -> Tpl {
    let mut b = B::new(major);
    let t = b.class(b"a/T");
    // 3.. : candidate names and descriptors, some of them equal under different indices
    let n = [b.utf(b"a"), b.utf(b"b"), b.utf(b"a"), b.utf(b"<init>"), b.utf(b"<clinit>")];
    let d = [b.utf(b"I"), b.utf(b"[I"), b.utf(b"La;"), b.utf(b"I")];
    let md = [b.utf(b"()V"), b.utf(b"()I"), b.utf(b"(I)V"), b.utf(b"(I)I"), b.utf(b"()V"), b.utf(b"(La;)V")];
    b.oo(&[flags, t, 0, 0]);
    b.m(15, "member-fields", |b| {
        b.oo(&[2, 1, n[0], d[0], 0, 2, n[1], d[1], 0]);
    });
    b.m(15, "member-methods", |b| {
        b.oo(&[3, 1, n[0], md[0], 0, 2, n[1], md[2], 0, 8, n[4], md[0], 0]);
    });
    b.o2(0);
    b.finish()
}

/// small pools for the scenarios with several threads
fn shared(which: u8) -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"T");
    let mut h = 0;
    match which {
        0 => {
            let d = b.utf(b"I");
            let n = b.utf(b"f");
            b.pm(2, "shared-field", |b| {
                let m = b.c2(12, n, d);
                let f = b.c2(9, t, m);
                b.handle(1, f);
                b.c1(8, n);
            });
        }
        1 => {
            let d = b.utf(b"()V");
            let n = b.utf(b"m");
            b.pm(2, "shared-method", |b| {
                let m = b.c2(12, n, d);
                let x = b.c2(10, t, m);
                b.handle(5, x);
                let x = b.c2(11, t, m);
                b.handle(9, x);
            });
        }
        _ => {
            let d = b.utf(b"()I");
            let n = b.utf(b"i");
            let j = b.utf(b"J");
            let m = b.c2(12, n, d);
            let x = b.c2(10, t, m);
            h = b.handle(6, x);
            b.pm(2, "shared-dynamic", |b| {
                b.c2(18, 0, m);
                let k = b.c2(12, n, j);
                b.c2(17, 0, k);
                b.c1(16, d);
                b.c1(19, n);
                b.c1(20, n);
            });
        }
    }
    b.oo(&[0x21, t, 0, 0, 0, 0, (h != 0) as u16]);
    if h != 0 {
        b.attr(b"BootstrapMethods", |b| b.oo(&[1, h, 1, h]));
    }
    b.finish()
}


// ---- tables with more entries than fit in a byte ----

const MANY: u16 = 260;

impl B {
    /// a counted table; the count and the last entry are regions
    fn tab(&mut self, prop: u8, name: &'static str, n: u16, mut f: impl FnMut(&mut B, u16)) {
        self.m(prop, name, |b| b.o2(n));
        self.rows(prop, name, n, &mut f);
    }
    fn tab1(&mut self, prop: u8, name: &'static str, n: u16, mut f: impl FnMut(&mut B, u16)) {
        self.m(prop, name, |b| b.o1(n as u8));
        self.rows(prop, name, n, &mut f);
    }
    fn rows(&mut self, prop: u8, name: &'static str, n: u16, f: &mut dyn FnMut(&mut B, u16)) {
        for i in 0..n - 1 {
            f(self, i);
        }
        self.m(prop, name, |b| f(b, n - 1));
    }
    fn num(&mut self, prefix: u8, i: u16) -> u16 {
        self.utf(&[prefix, b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8])
    }
    /// method `m()V` with a Code attribute of `pad` nops and a return and the given tables
    fn with_tables(&mut self, pad: u32, natt: u16, f: impl FnOnce(&mut B)) {
        self.o2(0);
        self.o2(1);
        self.method_head(b"m", b"()V");
        self.o2(1);
        self.attr(b"Code", |b| {
            b.oo(&[4, 4]);
            b.o4(pad + 1);
            for _ in 0..pad {
                b.o1(0);
            }
            b.o1(0xb1);
            b.oo(&[0, natt]);
            f(b);
        });
        self.o2(0);
    }
}

fn many(which: u64) -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let c = b.class(b"a/C");
    let n = b.utf(b"n");
    let d = b.utf(b"I");
    let md = b.utf(b"()V");
    let ty = b.utf(b"La/A;");
    let i = b.c4(3, 5);
    let j = b.c4(3, 6);
    let two = |x: u16, p: u16, q: u16| if x % 3 == 1 { q } else { p };
    match which {
        0 => {
            b.oo(&[0x21, t, c, 0]);
            b.tab(4, "many-fields", MANY, |b, k| {
                let x = b.num(b'f', k);
                b.oo(&[1 << (k % 3), x, d, 0]);
            });
            b.oo(&[0, 0]);
        }
        1 => {
            b.oo(&[0x21, t, c, 0, 0]);
            b.tab(4, "many-methods", MANY, |b, k| {
                let x = b.num(b'm', k);
                b.oo(&[0x0100 | 1 << (k % 3), x, md, 0]);
            });
            b.oo(&[0]);
        }
        2 => {
            b.oo(&[0x21, t, c, 0, 0, 1, 1, n, md, 2]);
            b.attr(b"Exceptions", |b| b.tab(14, "many-exceptions", MANY, |b, k| b.o2(two(k, c, t))));
            b.attr(b"MethodParameters", |b| b.tab1(14, "many-parameters", 255, |b, k| b.oo(&[two(k, n, 0), 0x10 << (k % 2 * 8)])));
            b.o2(6);
            b.attr(b"InnerClasses", |b| b.tab(14, "many-inner", MANY, |b, k| b.oo(&[two(k, c, t), two(k, 0, c), two(k, n, 0), k])));
            b.attr(b"NestMembers", |b| b.tab(14, "many-nest-members", MANY, |b, k| b.o2(two(k, c, t))));
            b.attr(b"PermittedSubclasses", |b| b.tab(14, "many-permitted", MANY, |b, k| b.o2(two(k, c, t))));
            b.attr(b"Record", |b| b.tab(14, "many-components", MANY, |b, k| b.oo(&[two(k, n, d), d, 0])));
            let m = b.c2(12, n, md);
            let m = b.c2(10, t, m);
            let h = b.handle(6, m);
            let g = b.handle(5, m);
            b.attr(b"BootstrapMethods", |b| {
                b.tab(14, "many-bootstrap", MANY, |b, k| {
                    b.o2(two(k, h, g));
                    if k == 100 {
                        b.o2(MANY);
                        for x in 0..MANY {
                            b.o2(two(x, i, j));
                        }
                    } else {
                        b.oo(&[1, two(k, j, i)]);
                    }
                })
            });
            b.attr(b"SourceFile", |b| b.o2(n));
        }
        3 => {
            b.oo(&[0x21, t, c, 0, 0, 1, 1, n, md, 4]);
            b.attr(b"RuntimeVisibleAnnotations", |b| {
                b.tab(13, "many-annotations", MANY, |b, k| {
                    b.oo(&[ty, (k == 7) as u16]);
                    if k == 7 {
                        b.o2(n);
                        b.o1(b'I');
                        b.o2(i);
                    }
                })
            });
            b.attr(b"RuntimeInvisibleAnnotations", |b| {
                b.oo(&[1, ty]);
                b.tab(13, "many-elements", MANY, |b, k| {
                    b.o2(two(k, n, d));
                    b.o1(if k % 5 == 0 { b's' } else { b'I' });
                    b.o2(if k % 5 == 0 { n } else { two(k, i, j) });
                })
            });
            b.attr(b"RuntimeVisibleParameterAnnotations", |b| b.tab1(13, "many-parameters", 255, |b, k| {
                b.o2((k % 50 == 0) as u16);
                if k % 50 == 0 {
                    b.oo(&[ty, 0]);
                }
            }));
            b.attr(b"AnnotationDefault", |b| {
                b.o1(b'[');
                b.tab(13, "many-values", MANY, |b, k| {
                    b.o1(b'I');
                    b.o2(two(k, i, j));
                })
            });
            b.o2(0);
        }
        4 => {
            b.oo(&[0x21, t, c, 0, 0, 0, 2]);
            b.attr(b"RuntimeVisibleTypeAnnotations", |b| {
                b.tab(13, "many-type-annotations", MANY, |b, k| {
                    b.bytes(&[if k % 2 == 0 { 0x13 } else { 0x14 }, 0]);
                    b.oo(&[ty, 0]);
                })
            });
            b.attr(b"RuntimeInvisibleTypeAnnotations", |b| {
                b.o2(2);
                b.o1(0x40);
                b.tab(13, "many-ranges", MANY, |b, k| b.oo(&[k, k + 1, 3 * k]));
                b.o1(0);
                b.oo(&[ty, 0]);
                b.o1(0x13);
                b.tab1(13, "long-path", 255, |b, k| b.bytes(if k % 4 == 3 { &[3, 200] } else { &[1, 0] }));
                b.oo(&[ty, 0]);
            });
        }
        5 => {
            b.oo(&[0x21, t, c, 0]);
            b.with_tables(3, 4, |b| {
                b.attr(b"LocalVariableTable", |b| b.tab(12, "many-locals", MANY, |b, k| b.oo(&[k % 4, 0, n, d, k])));
                b.attr(b"LocalVariableTypeTable", |b| b.tab(12, "many-local-types", MANY, |b, k| b.oo(&[k % 4, 0, n, d, 3 * k])));
                b.attr(b"LineNumberTable", |b| b.tab(12, "many-lines", MANY, |b, k| b.oo(&[k % 4, 1000 - k])));
                b.attr(b"LineNumberTable", |b| b.oo(&[1, 2, 3]));
            });
        }
        6 => {
            b.oo(&[0x21, t, c, 0]);
            b.with_tables(300, 1, |b| {
                b.attr(b"StackMapTable", |b| {
                    b.tab(12, "many-frames", MANY, |b, k| match k {
                        0 => {
                            b.o1(255);
                            b.o2(0);
                            b.tab(12, "many-frame-locals", MANY, |b, x| {
                                b.o1(if x % 7 == 2 { 7 } else { (x % 7) as u8 });
                                if x % 7 == 2 {
                                    b.o2(t);
                                }
                            });
                            b.tab(12, "many-frame-stack", MANY, |b, x| {
                                b.o1(if x % 9 == 3 { 8 } else { 1 });
                                if x % 9 == 3 {
                                    b.o2(x);
                                }
                            });
                        }
                        k if k % 6 == 1 => {
                            b.o1(251);
                            b.o2(0);
                        }
                        k if k % 6 == 2 => b.bytes(&[64, 1]),
                        _ => b.o1(0),
                    })
                });
            });
        }
        7 => {
            b.oo(&[0x21, t, c, 0]);
            b.o2(0);
            b.o2(1);
            b.method_head(b"m", b"()V");
            b.o2(1);
            b.attr(b"Code", |b| {
                b.oo(&[4, 4]);
                b.o4(301);
                for _ in 0..300 {
                    b.o1(0);
                }
                b.o1(0xb1);
                b.tab(12, "many-handlers", MANY, |b, k| b.oo(&[k, k + 1, 300 - k, two(k, c, 0)]));
                b.o2(0);
            });
            b.o2(0);
        }
        8 => {
            let u = b.utf(b"m.a");
            let m1 = b.c1(19, u);
            let u = b.utf(b"m.b");
            let m2 = b.c1(19, u);
            let u = b.utf(b"p/q");
            let p1 = b.c1(20, u);
            let u = b.utf(b"p/r");
            let p2 = b.c1(20, u);
            let mi = b.class(b"module-info");
            b.oo(&[0x8000, mi, 0, 0, 0, 0, 2]);
            b.attr(b"Module", |b| {
                b.oo(&[m1, 0x20, 0]);
                b.tab(14, "many-requires", MANY, |b, k| b.oo(&[two(k, m2, m1), 0x20 << (k % 2), two(k, 0, n)]));
                b.tab(14, "many-exports", MANY, |b, k| b.oo(&[two(k, p1, p2), 0x1000, 1, two(k, m1, m2)]));
                b.tab(14, "many-opens", MANY, |b, k| b.oo(&[two(k, p1, p2), 0x8000, 0]));
                b.tab(14, "many-uses", MANY, |b, k| b.o2(two(k, t, c)));
                b.tab(14, "many-provides", MANY, |b, k| b.oo(&[two(k, c, t), 1, two(k, t, c)]));
            });
            b.attr(b"ModulePackages", |b| b.tab(14, "many-packages", MANY, |b, k| b.o2(two(k, p1, p2))));
        }
        9 => {
            let u = b.utf(b"m.a");
            let m1 = b.c1(19, u);
            let u = b.utf(b"m.b");
            let m2 = b.c1(19, u);
            let u = b.utf(b"p/q");
            let p1 = b.c1(20, u);
            let mi = b.class(b"module-info");
            b.oo(&[0x8000, mi, 0, 0, 0, 0, 1]);
            b.attr(b"Module", |b| {
                b.oo(&[m1, 0x20, 0, 0, 1, p1, 0]);
                b.tab(14, "many-exports-to", MANY, |b, k| b.o2(two(k, m1, m2)));
                b.oo(&[1, p1, 0]);
                b.tab(14, "many-opens-to", MANY, |b, k| b.o2(two(k, m2, m1)));
                b.oo(&[0, 1, c]);
                b.tab(14, "many-provides-with", MANY, |b, k| b.o2(two(k, t, c)));
            });
        }
        10 => {
            // attribute counts
            let o = b.utf(b"O");
            let dep = b.utf(b"Deprecated");
            let each = |b: &mut B, k: u16| {
                let name = if k == 200 { dep } else { o };
                b.attr_ix(name, |b| {
                    if k % 20 == 3 {
                        b.o1(k as u8);
                    }
                })
            };
            b.oo(&[0x21, t, c, 0, 1, 1, n, d]);
            b.tab(11, "many-field-attributes", MANY, each);
            b.oo(&[1, 0x101, n, md]);
            b.tab(11, "many-method-attributes", MANY, each);
            b.tab(11, "many-class-attributes", MANY, each);
        }
        11 => {
            let o = b.utf(b"O");
            let dep = b.utf(b"Deprecated");
            let each = |b: &mut B, k: u16| {
                let name = if k == 200 { dep } else { o };
                b.attr_ix(name, |b| {
                    if k % 20 == 3 {
                        b.o1(k as u8);
                    }
                })
            };
            b.oo(&[0x21, t, c, 0, 0, 1, 1, n, md, 1]);
            b.attr(b"Code", |b| {
                b.oo(&[0, 0]);
                b.o4(1);
                b.o1(0xb1);
                b.o2(0);
                b.tab(11, "many-code-attributes", MANY, each);
            });
            b.o2(2);
            b.attr(b"Record", |b| {
                b.oo(&[1, n, d]);
                b.tab(11, "many-component-attributes", MANY, each);
            });
            let other = b.utf(b"Q");
            b.m(11, "long-attribute", |b| b.o2(other));
            b.m(11, "long-attribute", |b| b.o4(66000));
            for _ in 0..66000 / 4 {
                b.o4(0x01020304);
            }
        }
        12 => {
            // many switch cases
            b.oo(&[0x21, t, c, 0]);
            let mut co: Vec<u8> = vec![0x03, 0xab, 0, 0];
            let i4 = |c: &mut Vec<u8>, v: i32| c.extend_from_slice(&v.to_be_bytes());
            let len = 12 + 8 * MANY as i32;
            i4(&mut co, len - 1);
            i4(&mut co, MANY as i32);
            for k in 0..MANY as i32 {
                i4(&mut co, k * 1000 - 130000);
                i4(&mut co, len - 1 + k % 2);
            }
            let last = co.len() - 8;
            co.extend_from_slice(&[0x00, 0xb1]);
            b.o2(0);
            b.o2(1);
            b.method_head(b"m", b"()V");
            b.o2(1);
            b.attr(b"Code", |b| {
                b.oo(&[4, 4]);
                b.o4(co.len() as u32);
                b.bytes(&co[..8]);
                b.m(9, "many-pairs", |b| b.bytes(&co[8..12]));
                b.bytes(&co[12..last]);
                b.m(10, "many-pairs", |b| b.bytes(&co[last..]));
                b.oo(&[0, 0]);
            });
            b.o2(0);
        }
        _ => return long_texts(),
    }
    b.finish()
}

/// descriptors, names and texts of more than 255 bytes
fn long_texts() -> Tpl {
    let mut b = B::new(61);
    let mut nm = vec![b'a'; 300];
    nm[150] = b'/';
    let t = b.class(&nm);
    let mut d = b"(".to_vec();
    for k in 0..260 {
        d.extend_from_slice(match k % 3 {
            0 => b"I",
            1 => b"[J",
            _ => b"La;",
        });
    }
    d.extend_from_slice(b")V");
    let st = b.pool.len() + 3 + d.len();
    let md = b.utf(&d);
    b.pmarks.push(Mark { prop: 8, name: "many-parameters", start: st - 5, end: st });
    let mut fd = b"L".to_vec();
    fd.extend_from_slice(&nm);
    fd.push(b';');
    let st = b.pool.len() + 3 + fd.len();
    let fd = b.utf(&fd);
    b.pmarks.push(Mark { prop: 8, name: "long-class-descriptor", start: st - 3, end: st });
    let long = vec![b'x'; 0x1ff];
    let st = b.pool.len() + 3 + long.len();
    let fx = b.utf(&long);
    b.pmarks.push(Mark { prop: 7, name: "long-name", start: st - 2, end: st });
    let mut lit = vec![b'q'; 257];
    lit.extend_from_slice(b"\xC3\xA9\xED\xA0\xBD\xED\xB8\x80");
    let st = b.pool.len() + 3 + lit.len();
    b.string(&lit);
    b.pmarks.push(Mark { prop: 6, name: "long-literal", start: st - 8, end: st });
    b.oo(&[0x21, t, 0, 0, 1, 1, fx, fd, 0, 1, 0x101, fx, md, 0, 1]);
    let o = vec![b'd'; 300];
    b.attr(b"SourceDebugExtension", |b| {
        b.bytes(&o);
        b.m(6, "long-extension", |b| b.bytes(b"\xC3\xA9"));
    });
    b.finish()
}

/// bytecode in places where the format does not put it, or nested in itself
fn odd_places(which: u64) -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"a/T");
    let (n, d, md) = (b.utf(b"n"), b.utf(b"I"), b.utf(b"()V"));
    let (code, lines, rec) = (b.utf(b"Code"), b.utf(b"LineNumberTable"), b.utf(b"Record"));
    let put = |b: &mut B| {
        b.attr_ix(code, |b| {
            b.m(16, "odd-code", |b| {
                b.oo(&[1, 2]);
                b.o4(6);
                b.bytes(&[0x10, 0x07, 0xa7, 0xff, 0xfe, 0xb1]);
                b.oo(&[1, 0, 2, 5, 0]);
                b.o2(1);
                b.attr_ix(lines, |b| b.oo(&[1, 2, 9]));
            })
        })
    };
    b.oo(&[0x21, t, 0, 0]);
    match which {
        0 => {
            b.oo(&[1, 1, n, d, 1]);
            put(&mut b);
            b.oo(&[0, 1]);
            b.attr_ix(rec, |b| {
                b.oo(&[2, n, d, 1]);
                put(b);
                b.oo(&[n, d, 1]);
                put(b);
            });
        }
        1 => {
            b.oo(&[0, 1, 1, n, md, 2]);
            b.attr_ix(code, |b| {
                b.oo(&[0, 0]);
                b.o4(1);
                b.oo(&[0xb100]);
                b.b.pop();
                b.oo(&[0, 2]);
                put(b);
                b.attr_ix(rec, |b| {
                    b.oo(&[1, n, d, 1]);
                    put(b);
                });
            });
            put(&mut b);
            b.o2(0);
        }
        _ => {
            b.oo(&[0, 2, 0x0401, n, md, 1]);
            put(&mut b);
            let u = b.utf(b"o");
            b.oo(&[0x0100, u, md, 1]);
            put(&mut b);
            b.o2(1);
            put(&mut b);
        }
    }
    b.finish()
}

/// a module description next to things that a module must not have
fn module_rules(which: u64) -> Tpl {
    let mut b = B::new(61);
    let t = b.class(b"module-info");
    let s = b.class(b"java/lang/Object");
    let (n, d, md) = (b.utf(b"n"), b.utf(b"I"), b.utf(b"()V"));
    let u = b.utf(b"m.a");
    let m = b.c1(19, u);
    b.m(15, "module-flags", |b| b.o2(0x8000));
    b.m(15, "module-this", |b| b.o2(t));
    b.m(15, "module-super", |b| b.o2(if which == 0 { s } else { 0 }));
    match which {
        1 => b.oo(&[1, s, 0, 0]),
        2 => b.oo(&[0, 1, 0x1011, n, d, 0, 0]),
        3 => b.oo(&[0, 0, 1, 0x1111, n, md, 0]),
        4 => b.oo(&[0, 0, 2, 0x1111, n, md, 0, 1, d, md, 0]),
        _ => b.oo(&[0, 0, 0]),
    }
    let o = b.utf(b"Modulf");
    let _ = o;
    b.m(15, "module-attribute-count", |b| b.o2(if which == 6 { 2 } else { 1 }));
    let name = b.utf(b"Module");
    for _ in 0..if which == 6 { 2 } else { 1 } {
        b.attr_ix(name, |b| b.oo(&[m, 0, 0, 0, 0, 0, 0, 0]));
    }
    b.finish()
}

/// handlers for well-known exception classes
fn known_names() -> Tpl {
    let mut b = B::new(61);
    let th = b.class(b"java/lang/Throwable");
    let ob = b.class(b"java/lang/Object");
    let st = b.class(b"java/lang/String");
    let er = b.class(b"java/lang/Error");
    let _ = er;
    b.string(b"java/lang/String");
    let m = b.member(10, ob, b"<init>", b"()V");
    b.oo(&[0x31, st, ob, 1, th]);
    let sd = b.utf(b"Ljava/lang/String;");
    let sn = b.utf(b"this");
    b.oo(&[1, 0x19, sn, sd, 0]);
    b.o2(2);
    b.method_head(b"main", b"([Ljava/lang/String;)V");
    b.o2(2);
    b.attr(b"Code", |b| {
        b.oo(&[1, 1]);
        b.o4(5);
        b.bytes(&[0x2a, 0xb7]);
        b.o2(m);
        b.o1(0xb1);
        b.m(12, "known-handlers", |b| b.oo(&[3, 0, 1, 4, th, 0, 4, 1, ob, 1, 4, 0, 0]));
        b.o2(1);
        b.attr(b"LocalVariableTable", |b| b.m(12, "known-locals", |b| b.oo(&[1, 0, 5, sn, sd, 0])));
    });
    b.attr(b"Exceptions", |b| b.m(14, "known-exceptions", |b| b.oo(&[2, th, er])));
    b.method_head(b"<init>", b"()V");
    b.o2(0);
    b.o2(2);
    b.attr(b"InnerClasses", |b| b.m(14, "known-inner", |b| b.oo(&[1, st, ob, sn, 8])));
    b.attr(b"EnclosingMethod", |b| b.m(14, "known-enclosing", |b| b.oo(&[ob, 0])));
    b.finish()
}

/// names of several bytes per character, in every role
fn wide_names(module: bool) -> Tpl {
    let mut b = B::new(61);
    if module {
        let t = b.class(b"module-info");
        let (m, p, u) = ("\u{e9}.\\@\u{20ac}", "\u{e9}/\u{20ac}x", "1\u{e9}");
        let m = b.utf(m.as_bytes());
        let m = b.c1(19, m);
        let p = b.utf(p.as_bytes());
        let p = b.c1(20, p);
        let u = b.utf(u.as_bytes());
        let c = b.class("\u{20ac}/\u{e9}".as_bytes());
        b.oo(&[0x8000, t, 0, 0, 0, 0, 3]);
        b.attr(b"Module", |b| b.oo(&[m, 0, u, 1, m, 0, u, 1, p, 0, 1, m, 1, p, 0, 1, m, 1, c, 1, c, 1, c]));
        b.attr(b"ModulePackages", |b| b.oo(&[1, p]));
        b.attr(b"ModuleMainClass", |b| b.oo(&[c]));
        return b.finish();
    }
    let t = b.class("\u{e9}\u{20ac}/\u{20ac}\u{e9}/x\u{e9}".as_bytes());
    let a = b.class("[[L\u{20ac}/\u{e9};".as_bytes());
    let n = b.utf("\u{e9}x\u{20ac}".as_bytes());
    let d = b.utf("L\u{e9}/\u{20ac}\u{e9};".as_bytes());
    let md = b.utf("(IL\u{20ac}x;[L\u{e9}/y;)L\u{e9};".as_bytes());
    let lit = b.c1(8, n);
    let x = b.c2(12, n, d);
    let f = b.c2(9, t, x);
    b.c1(16, md);
    b.oo(&[0x31, t, t, 1, t]);
    b.oo(&[1, 1, n, d, 1]);
    b.attr("\u{e9}\u{20ac}".as_bytes(), |b| b.o1(7));
    b.oo(&[1, 1, n, md, 3]);
    b.attr(b"Code", |b| {
        b.oo(&[1, 1]);
        b.o4(9);
        b.o1(0xc0);
        b.o2(a);
        b.o1(0xb2);
        b.o2(f);
        b.bytes(&[0x12, lit as u8, 0xb1]);
        b.oo(&[1, 0, 3, 3, t]);
        b.o2(1);
        b.attr(b"LocalVariableTable", |b| b.oo(&[1, 0, 4, n, d, 0]));
    });
    b.attr(b"MethodParameters", |b| {
        b.o1(1);
        b.oo(&[n, 0]);
    });
    b.attr(b"Exceptions", |b| b.oo(&[1, t]));
    b.o2(5);
    b.attr(b"RuntimeVisibleAnnotations", |b| {
        b.oo(&[1, d, 1, n]);
        b.o1(b's');
        b.o2(n);
    });
    b.attr(b"SourceFile", |b| b.o2(n));
    b.attr(b"InnerClasses", |b| b.oo(&[1, t, 0, n, 1]));
    b.attr(b"Record", |b| b.oo(&[1, n, d, 0]));
    b.attr(b"SourceDebugExtension", |b| b.bytes("\u{e9}\u{20ac}".as_bytes()));
    b.finish()
}

/// switches whose keys and offsets are at the ends of their ranges
fn code_switch_far(which: u64) -> Tpl {
    let mut b = B::new(61);
    b.head(0x21);
    let i4 = |c: &mut Vec<u8>, v: i32| c.extend_from_slice(&v.to_be_bytes());
    let mut c: Vec<u8> = vec![0x00, 0x00];
    match which {
        0 => {
            c.extend_from_slice(&[0xaa, 0]);
            i4(&mut c, -2);
            i4(&mut c, i32::MAX - 2);
            i4(&mut c, i32::MAX);
            for k in [-1, 0, -2] {
                i4(&mut c, k);
            }
        }
        1 => {
            c.extend_from_slice(&[0xaa, 0]);
            i4(&mut c, -2);
            i4(&mut c, i32::MIN);
            i4(&mut c, i32::MIN + 1);
            for k in [-1, 0] {
                i4(&mut c, k);
            }
        }
        _ => {
            c.extend_from_slice(&[0xab, 0]);
            i4(&mut c, -1);
            i4(&mut c, 3);
            for (k, o) in [(i32::MIN, -2), (0, 0), (i32::MAX, -1)] {
                i4(&mut c, k);
                i4(&mut c, o);
            }
        }
    }
    c.push(0xb1);
    rest_of_code(&mut b, &c, 10, "far-switch");
    b.finish()
}

macro_rules! corpus {
    ($($f:literal),*) => {
        /// classes produced by javac 17
        const CORPUS: &[&[u8]] = &[$(include_bytes!(concat!("../data/", $f, ".class"))),*];
    };
}
corpus!(
    "Flow", "Gen", "Gen_1", "Gen_1Local", "Gen_En", "Gen_In", "Ann", "AnnUse", "Lam", "Rec", "Seal", "Uni", "module-info", "package-info", "Gen8_In",
    "Lam8"
);

/// template numbers from here on are those of the first ones behind 300 other constants
pub const LATE: u64 = 1024;
/// no template has this number or a higher one
pub const KEYWORDS: u64 = 2048;
pub const END: u64 = KEYWORDS + 21 * 64;

static SHIFTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// one text of `len` letters, meant to take every word of that length, in many roles at once
fn keyword(ctx: u64, len: usize) -> Tpl {
    let mut b = B::new(61);
    let word = vec![b'x'; len];
    let with = |before: &[u8], after: &[u8]| [before, &word[..], after].concat();
    if ctx < 10 {
        // an attribute name, in the place ctx / 2
        let place = ctx / 2;
        let empty = ctx % 2 == 0;
        let t = b.class(b"a/T");
        let (n, d, md) = (b.utf(b"n"), b.utf(b"I"), b.utf(b"()V"));
        let code = b.utf(b"Code");
        let record = b.utf(b"Record");
        let w = b.utf_m(100, "keyword", &word);
        let put = |b: &mut B, here: bool| {
            b.o2(here as u16);
            if here {
                b.attr_ix(w, |b| b.bytes(if empty { &[] } else { &[0, 0] }));
            }
        };
        b.oo(&[0x31, t, 0, 0, 1, 1, n, d]);
        put(&mut b, place == 1);
        b.oo(&[1, 0x1, n, md, 2]);
        b.attr_ix(code, |b| {
            b.oo(&[1, 1]);
            b.o4(1);
            b.o1(0xb1);
            b.o2(0);
            put(b, place == 3);
        });
        if place == 2 {
            b.attr_ix(w, |b| b.bytes(if empty { &[] } else { &[0, 0] }));
        } else {
            b.attr(b"Deprecated", |_| {});
        }
        b.o2(1 + (place == 0) as u16);
        b.attr_ix(record, |b| {
            b.oo(&[1, n, d]);
            put(b, place == 4);
        });
        if place == 0 {
            b.attr_ix(w, |b| b.bytes(if empty { &[] } else { &[0, 0] }));
        }
        return b.finish();
    }
    if ctx < 14 || ctx > 15 {
        // a class name
        let shapes = [&b""[..], b"java/lang/", b"java/", b"kotlin/", b"", b"", b"scala/", b"org/", b"com/sun/", b"java/lang/invoke/", b"a/"];
        let prefix: &[u8] = shapes[(ctx - 10) as usize];
        let u = b.utf_m(100, "keyword", &with(prefix, b""));
        let c = b.c1(7, u);
        let other = b.class(b"a/T");
        let (n, d, md) = (b.utf(b"n"), b.utf(b"I"), b.utf(b"()V"));
        let fd = b.utf(&with(&[b"L", prefix].concat(), b";"));
        b.pmarks.push(Mark { prop: 101, name: "keyword-descriptor", start: b.pool.len() - prefix.len() - len - 1, end: b.pool.len() - 1 });
        b.oo(&[0x31, c, c, 1, c]);
        b.oo(&[2, 1, n, fd, 0, 0x11, n, d, 0]);
        b.oo(&[1, 1, n, md, 2]);
        b.attr(b"Code", |b| {
            b.oo(&[1, 1]);
            b.o4(4);
            b.o1(0xbb);
            b.o2(c);
            b.o1(0xb1);
            b.oo(&[2, 0, 3, 3, c, 0, 1, 3, 0]);
            b.o2(2);
            b.attr(b"LocalVariableTable", |b| b.oo(&[1, 0, 4, n, fd, 0]));
            b.attr(b"StackMapTable", |b| {
                b.o2(1);
                b.bytes(&[64, 7]);
                b.o2(c);
            });
        });
        b.attr(b"Exceptions", |b| b.oo(&[2, c, other]));
        b.o2(6);
        b.attr(b"InnerClasses", |b| b.oo(&[2, c, other, n, 1, other, c, 0, 1]));
        b.attr(b"EnclosingMethod", |b| b.oo(&[c, 0]));
        b.attr(b"NestMembers", |b| b.oo(&[1, c]));
        b.attr(b"PermittedSubclasses", |b| b.oo(&[1, c]));
        b.attr(b"RuntimeVisibleAnnotations", |b| {
            b.oo(&[1, fd, 1, n]);
            b.o1(b'c');
            b.o2(fd);
        });
        b.attr(b"RuntimeInvisibleTypeAnnotations", |b| {
            b.o2(1);
            b.bytes(&[0x10, 0, 0, 0]);
            b.oo(&[fd, 0]);
        });
        return b.finish();
    }
    // a plain name; in a module also that of modules and packages
    let u = b.utf_m(100, "keyword", &word);
    if ctx == 14 {
        let t = b.class(b"module-info");
        let (m, p, c) = (b.c1(19, u), b.c1(20, u), b.class(b"a/T"));
        b.oo(&[0x8000, t, 0, 0, 0, 0, 3]);
        b.attr(b"Module", |b| b.oo(&[m, 0, u, 1, m, 0, u, 1, p, 0, 1, m, 1, p, 0, 1, m, 0, 1, c, 1, c]));
        b.attr(b"ModulePackages", |b| b.oo(&[1, p]));
        b.attr(b"SourceFile", |b| b.o2(u));
        return b.finish();
    }
    let t = b.class(b"a/T");
    let lit = b.c1(8, u);
    let (d, md) = (b.utf(b"Ljava/lang/String;"), b.utf(b"(I)V"));
    let fm = b.c2(12, u, d);
    let mm = b.c2(12, u, md);
    let f = b.c2(9, t, fm);
    let m = b.c2(10, t, mm);
    let h = b.handle(6, m);
    b.c2(18, 0, mm);
    b.oo(&[0x31, t, 0, 0, 1, 0x19, u, d, 3]);
    b.attr(b"ConstantValue", |b| b.o2(lit));
    b.attr(b"Signature", |b| b.o2(u));
    b.attr(b"RuntimeVisibleAnnotations", |b| {
        b.oo(&[1, d, 2, u]);
        b.o1(b's');
        b.o2(u);
        b.o2(u);
        b.o1(b'e');
        b.oo(&[d, u]);
    });
    b.oo(&[1, 1, u, md, 2]);
    b.attr(b"Code", |b| {
        b.oo(&[1, 1]);
        b.o4(9);
        b.o1(0xb2);
        b.o2(f);
        b.o1(0xb8);
        b.o2(m);
        b.bytes(&[0x12, lit as u8, 0xb1, 0, 0]);
        b.o2(2);
        b.attr(b"LocalVariableTable", |b| b.oo(&[1, 0, 4, u, d, 0]));
        b.attr(b"LocalVariableTypeTable", |b| b.oo(&[1, 0, 4, u, u, 0]));
    });
    b.attr(b"MethodParameters", |b| {
        b.o1(1);
        b.oo(&[u, 0]);
    });
    b.o2(5);
    b.attr(b"BootstrapMethods", |b| b.oo(&[1, h, 1, lit]));
    b.attr(b"SourceFile", |b| b.o2(u));
    b.attr(b"InnerClasses", |b| b.oo(&[1, t, 0, u, 1]));
    b.attr(b"EnclosingMethod", |b| b.oo(&[t, mm]));
    b.attr(b"Record", |b| b.oo(&[1, u, d, 0]));
    b.finish()
}

pub fn template(id: u64) -> Option<Tpl> {
    use std::sync::atomic::Ordering::Relaxed;
    if id >= KEYWORDS {
        let (ctx, len) = ((id - KEYWORDS) / 64, (id - KEYWORDS) % 64);
        let top = match ctx {
            0..=9 => 38,
            10..=20 => 24,
            _ => 0,
        };
        return if len >= 1 && len <= top { Some(keyword(ctx, len as usize)) } else { None };
    }
    SHIFTED.store(id >= LATE, Relaxed);
    let r = plain_template(if id >= LATE { id - LATE } else { id });
    SHIFTED.store(false, Relaxed);
    match id {
        LATE.. if ![2, 7, 13, 20, 32, 33, 34, 35, 36, 40, 55, 58, 60, 61, 62].contains(&(id - LATE)) => None,
        _ => r,
    }
}

fn plain_template(id: u64) -> Option<Tpl> {
    Some(match id {
        0 => Tpl { bytes: std::hint::black_box(&include_bytes!("../data/Object.class")[..]).to_vec(), marks: Vec::new() },
        1 => Tpl { bytes: std::hint::black_box(&include_bytes!("../data/Kotlin.clazz")[..]).to_vec(), marks: Vec::new() },
        2 => pool(61),
        3 => pool(51),
        4 => pool(45),
        5 => header(61, 0x0021),
        6 => header(50, 0x0601),
        7 => names(),
        8 => method_names(0x0021, b"()V", 61),
        9 => method_names(0x0601, b"()V", 61),
        10 => method_names(0x0021, b"()I", 61),
        11 => method_names(0x0021, b"(I)V", 61),
        12 => method_names(0x0021, b"(I)V", 50),
        13 => descriptors(),
        14 => one_descriptor(false, b"[[[Lab;"),
        15 => one_descriptor(true, b"([ILa;)V"),
        16 => strings(b"abcdef"),
        17 => strings(b"a\xC0\x80\xC3\xA9\xE2\x82\xAC"),
        18 => strings(b"\xED\xA0\xBD\xED\xB8\x80"),
        19 => strings(b"\xF0\x9F\x98\x80zz"),
        20 => code_refs(61),
        21 => code_refs(55),
        22 => code_plain(),
        23 => code_jumps(),
        24..=27 => code_switch((id - 24) as usize, false),
        28..=31 => code_switch((id - 28) as usize, true),
        32 => code_tables(),
        33 => annotations(),
        34 => type_annotations(),
        35 => module(),
        36 => class_attrs(),
        37 => any_attr(&[0, 1, 0, 32, 0, 33, 0, 34]),
        38 => any_attr(&[0, 34]),
        39 => any_attr(&[]),
        40 => frames(),
        41 => large(),
        42 => long_code(),
        43 => long_strings(),
        44 => dims(254),
        45 => dims(255),
        46 => dims(256),
        47 => deep_annotation(20),
        48 => deep_annotation(5000),
        49 => deep_attributes(10, false),
        50 => deep_attributes(5000, false),
        51 => deep_attributes(10, true),
        52 => deep_attributes(3000, true),
        53 => chain(5000, true),
        54 => chain(5000, false),
        55 => bootstrap(1),
        56 => bootstrap(0),
        57 => bootstrap(2),
        58 => members(61, 0x21),
        59 => members(50, 0x601),
        60..=62 => shared((id - 60) as u8),
        63..=76 => many(id - 63),
        77..=79 => odd_places(id - 77),
        80..=86 => module_rules(id - 80),
        87 => known_names(),
        91 | 92 => wide_names(id == 92),
        88..=90 => code_switch_far(id - 88),
        100.. if id - 100 < CORPUS.len() as u64 => {
            Tpl { bytes: std::hint::black_box(CORPUS)[(id - 100) as usize].to_vec(), marks: Vec::new() }
        }
        _ => return None,
    })
}
