//! Reference decoder for the code array (JVMS chapter 6), compared with `ByteCode`.
use crate::hooks::{cover, fail};
use crate::model::*;
use crate::names::*;
use cafebabe::bytecode::*;
use cafebabe::constant_pool::*;

/// instructions without operands
fn simple(o: &Opcode) -> Option<u8> {
    use Opcode::*;
    Some(match o {
        Nop => 0x00,
        AconstNull => 0x01,
        IconstM1 => 0x02,
        Iconst0 => 0x03,
        Iconst1 => 0x04,
        Iconst2 => 0x05,
        Iconst3 => 0x06,
        Iconst4 => 0x07,
        Iconst5 => 0x08,
        Lconst0 => 0x09,
        Lconst1 => 0x0a,
        Fconst0 => 0x0b,
        Fconst1 => 0x0c,
        Fconst2 => 0x0d,
        Dconst0 => 0x0e,
        Dconst1 => 0x0f,
        Iaload => 0x2e,
        Laload => 0x2f,
        Faload => 0x30,
        Daload => 0x31,
        Aaload => 0x32,
        Baload => 0x33,
        Caload => 0x34,
        Saload => 0x35,
        Iastore => 0x4f,
        Lastore => 0x50,
        Fastore => 0x51,
        Dastore => 0x52,
        Aastore => 0x53,
        Bastore => 0x54,
        Castore => 0x55,
        Sastore => 0x56,
        Pop => 0x57,
        Pop2 => 0x58,
        Dup => 0x59,
        DupX1 => 0x5a,
        DupX2 => 0x5b,
        Dup2 => 0x5c,
        Dup2X1 => 0x5d,
        Dup2X2 => 0x5e,
        Swap => 0x5f,
        Iadd => 0x60,
        Ladd => 0x61,
        Fadd => 0x62,
        Dadd => 0x63,
        Isub => 0x64,
        Lsub => 0x65,
        Fsub => 0x66,
        Dsub => 0x67,
        Imul => 0x68,
        Lmul => 0x69,
        Fmul => 0x6a,
        Dmul => 0x6b,
        Idiv => 0x6c,
        Ldiv => 0x6d,
        Fdiv => 0x6e,
        Ddiv => 0x6f,
        Irem => 0x70,
        Lrem => 0x71,
        Frem => 0x72,
        Drem => 0x73,
        Ineg => 0x74,
        Lneg => 0x75,
        Fneg => 0x76,
        Dneg => 0x77,
        Ishl => 0x78,
        Lshl => 0x79,
        Ishr => 0x7a,
        Lshr => 0x7b,
        Iushr => 0x7c,
        Lushr => 0x7d,
        Iand => 0x7e,
        Land => 0x7f,
        Ior => 0x80,
        Lor => 0x81,
        Ixor => 0x82,
        Lxor => 0x83,
        I2l => 0x85,
        I2f => 0x86,
        I2d => 0x87,
        L2i => 0x88,
        L2f => 0x89,
        L2d => 0x8a,
        F2i => 0x8b,
        F2l => 0x8c,
        F2d => 0x8d,
        D2i => 0x8e,
        D2l => 0x8f,
        D2f => 0x90,
        I2b => 0x91,
        I2c => 0x92,
        I2s => 0x93,
        Lcmp => 0x94,
        Fcmpl => 0x95,
        Fcmpg => 0x96,
        Dcmpl => 0x97,
        Dcmpg => 0x98,
        Ireturn => 0xac,
        Lreturn => 0xad,
        Freturn => 0xae,
        Dreturn => 0xaf,
        Areturn => 0xb0,
        Return => 0xb1,
        Arraylength => 0xbe,
        Athrow => 0xbf,
        Monitorenter => 0xc2,
        Monitorexit => 0xc3,
        Breakpoint => 0xca,
        Impdep1 => 0xfe,
        Impdep2 => 0xff,
        _ => return None,
    })
}

fn local(o: &Opcode) -> Option<(u8, u16)> {
    use Opcode::*;
    Some(match o {
        Iload(x) => (0x15, *x),
        Lload(x) => (0x16, *x),
        Fload(x) => (0x17, *x),
        Dload(x) => (0x18, *x),
        Aload(x) => (0x19, *x),
        Istore(x) => (0x36, *x),
        Lstore(x) => (0x37, *x),
        Fstore(x) => (0x38, *x),
        Dstore(x) => (0x39, *x),
        Astore(x) => (0x3a, *x),
        Ret(x) => (0xa9, *x),
        _ => return None,
    })
}

fn jump(o: &Opcode) -> Option<(u8, i32)> {
    use Opcode::*;
    Some(match o {
        Ifeq(x) => (0x99, *x),
        Ifne(x) => (0x9a, *x),
        Iflt(x) => (0x9b, *x),
        Ifge(x) => (0x9c, *x),
        Ifgt(x) => (0x9d, *x),
        Ifle(x) => (0x9e, *x),
        IfIcmpeq(x) => (0x9f, *x),
        IfIcmpne(x) => (0xa0, *x),
        IfIcmplt(x) => (0xa1, *x),
        IfIcmpge(x) => (0xa2, *x),
        IfIcmpgt(x) => (0xa3, *x),
        IfIcmple(x) => (0xa4, *x),
        IfAcmpeq(x) => (0xa5, *x),
        IfAcmpne(x) => (0xa6, *x),
        Goto(x) => (0xa7, *x),
        Jsr(x) => (0xa8, *x),
        Ifnull(x) => (0xc6, *x),
        Ifnonnull(x) => (0xc7, *x),
        _ => return None,
    })
}

fn is_simple(b: u8) -> bool {
    matches!(b, 0x00 | 0x01 | 0x02 | 0x03 | 0x04 | 0x05 | 0x06 | 0x07 | 0x08 | 0x09 | 0x0a | 0x0b | 0x0c | 0x0d | 0x0e | 0x0f | 0x2e | 0x2f | 0x30 | 0x31 | 0x32 | 0x33 | 0x34 | 0x35 | 0x4f | 0x50 | 0x51 | 0x52 | 0x53 | 0x54 | 0x55 | 0x56 | 0x57 | 0x58 | 0x59 | 0x5a | 0x5b | 0x5c | 0x5d | 0x5e | 0x5f | 0x60 | 0x61 | 0x62 | 0x63 | 0x64 | 0x65 | 0x66 | 0x67 | 0x68 | 0x69 | 0x6a | 0x6b | 0x6c | 0x6d | 0x6e | 0x6f | 0x70 | 0x71 | 0x72 | 0x73 | 0x74 | 0x75 | 0x76 | 0x77 | 0x78 | 0x79 | 0x7a | 0x7b | 0x7c | 0x7d | 0x7e | 0x7f | 0x80 | 0x81 | 0x82 | 0x83 | 0x85 | 0x86 | 0x87 | 0x88 | 0x89 | 0x8a | 0x8b | 0x8c | 0x8d | 0x8e | 0x8f | 0x90 | 0x91 | 0x92 | 0x93 | 0x94 | 0x95 | 0x96 | 0x97 | 0x98 | 0xac | 0xad | 0xae | 0xaf | 0xb0 | 0xb1 | 0xbe | 0xbf | 0xc2 | 0xc3 | 0xca | 0xfe | 0xff)
}

struct Cur<'c> {
    b: &'c [u8],
    p: usize,
}
impl Cur<'_> {
    fn need(&self, n: usize) -> R<()> {
        if self.p > self.b.len() || self.b.len() - self.p < n {
            return Err(910);
        }
        Ok(())
    }
    #[inline(never)]
    fn u1(&mut self) -> R<u8> {
        self.need(1)?;
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    #[inline(never)]
    fn u2(&mut self) -> R<u16> {
        self.need(2)?;
        self.p += 2;
        Ok((self.b[self.p - 2] as u16) << 8 | self.b[self.p - 1] as u16)
    }
    #[inline(never)]
    fn i4(&mut self) -> R<i32> {
        self.need(4)?;
        self.p += 4;
        let b = &self.b[self.p - 4..self.p];
        Ok(((b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32) as i32)
    }
}

fn array_type(m: &mut M, ix: u16, r: Option<&ObjectArrayType>) -> R<usize> {
    let n = m.class(ix)?;
    if !n.is_empty() && n[0] == b'[' {
        let f = match field_desc(n) {
            Some(f) => f,
            None => return Err(701),
        };
        match r {
            None => {}
            Some(ObjectArrayType::ArrayType(d)) => M::ck_field_d(n, &f, d, 930),
            _ => fail(931),
        }
        Ok(f.dims)
    } else {
        match r {
            None => {}
            Some(ObjectArrayType::BinaryName(s)) => ck!(s.as_bytes() == n, 932),
            _ => fail(933),
        }
        Ok(0)
    }
}

#[inline(never)]
pub fn check(m: &mut M, code: &[u8], bc: Option<&ByteCode>) -> R<()> {
    let mut c = Cur { b: code, p: 0 };
    let mut k = 0;
    let mut starts: Vec<usize> = Vec::new();
    let mut jumps: Vec<(usize, i32)> = Vec::new();
    while c.p < code.len() {
        let at = c.p;
        starts.push(at);
        let r = match bc {
            None => None,
            Some(b) => {
                ck!(k < b.opcodes.len(), 901);
                ck!(b.opcodes[k].0 == at, 902);
                Some(&b.opcodes[k].1)
            }
        };
        k += 1;
        macro_rules! local {
            ($op:expr, $ix:expr) => {{
                let (op, ix): (u8, u16) = ($op, $ix);
                if let Some(r) = r {
                    ck!(local(r) == Some((op, ix)), 903);
                }
            }};
        }
        let op = c.u1()?;
        match op {
            _ if is_simple(op) => {
                if let Some(r) = r {
                    ck!(simple(r) == Some(op), 904);
                }
            }
            0x10 => {
                let v = c.u1()? as i8;
                if let Some(r) = r {
                    ck!(matches!(r, Opcode::Bipush(x) if *x == v), 905);
                }
            }
            0x11 => {
                let v = c.u2()? as i16;
                if let Some(r) = r {
                    ck!(matches!(r, Opcode::Sipush(x) if *x == v), 906);
                }
            }
            0x12 | 0x13 | 0x14 => {
                let ix = if op == 0x12 { c.u1()? as u16 } else { c.u2()? };
                match m.at(ix)? {
                    ME::Int(_) | ME::Float(_) | ME::Long(_) | ME::Double(_) | ME::Str(_) | ME::Class(_)
                    | ME::Handle(..) | ME::MType(_) | ME::Dynamic(..) => {}
                    _ => return Err(515),
                }
                match (op, r) {
                    (_, None) => {}
                    (0x12, Some(Opcode::Ldc(l))) => m.ck_loadable(ix, l, 907),
                    (0x13, Some(Opcode::LdcW(l))) => m.ck_loadable(ix, l, 907),
                    (0x14, Some(Opcode::Ldc2W(l))) => m.ck_loadable(ix, l, 907),
                    _ => fail(908),
                }
            }
            0x15..=0x19 | 0x36..=0x3a | 0xa9 => local!(op, c.u1()? as u16),
            0x1a..=0x2d => local!(0x15 + (op - 0x1a) / 4, ((op - 0x1a) % 4) as u16),
            0x3b..=0x4e => local!(0x36 + (op - 0x3b) / 4, ((op - 0x3b) % 4) as u16),
            0x84 => {
                let (x, v) = (c.u1()? as u16, c.u1()? as i8 as i16);
                if let Some(r) = r {
                    ck!(matches!(r, Opcode::Iinc(a, b) if *a == x && *b == v), 909);
                }
            }
            0x99..=0xa8 | 0xc6 | 0xc7 => {
                let j = c.u2()? as i16 as i32;
                if let Some(r) = r {
                    ck!(jump(r) == Some((op, j)), 920);
                }
                jumps.push((at, j));
            }
            0xc8 | 0xc9 => {
                let j = c.i4()?;
                if let Some(r) = r {
                    ck!(jump(r) == Some((op - 0xc8 + 0xa7, j)), 921);
                }
                jumps.push((at, j));
            }
            0xaa => {
                while c.p % 4 != 0 {
                    c.p += 1;
                }
                let (d, lo, hi) = (c.i4()?, c.i4()?, c.i4()?);
                if lo > hi {
                    return Err(916);
                }
                let n = (hi as i64 - lo as i64 + 1) as usize;
                if n > (code.len() - c.p) / 4 {
                    return Err(910);
                }
                let t = match r {
                    None => None,
                    Some(Opcode::Tableswitch(t)) => Some(t),
                    _ => fail(922),
                };
                if let Some(t) = t {
                    ck!(t.default == d && t.low == lo && t.high == hi, 923);
                    ck!(t.jumps.len() == n, 924);
                }
                jumps.push((at, d));
                for i in 0..n {
                    let j = c.i4()?;
                    if let Some(t) = t {
                        ck!(t.jumps[i] == j, 925);
                    }
                    jumps.push((at, j));
                }
            }
            0xab => {
                while c.p % 4 != 0 {
                    c.p += 1;
                }
                let (d, n) = (c.i4()?, c.i4()?);
                if n < 0 {
                    return Err(917);
                }
                let n = n as usize;
                if n > (code.len() - c.p) / 8 {
                    return Err(910);
                }
                let t = match r {
                    None => None,
                    Some(Opcode::Lookupswitch(t)) => Some(t),
                    _ => fail(926),
                };
                if let Some(t) = t {
                    ck!(t.default == d, 927);
                    ck!(t.match_offsets.len() == n, 928);
                }
                jumps.push((at, d));
                let mut last = i64::MIN;
                for i in 0..n {
                    let (v, j) = (c.i4()?, c.i4()?);
                    // 6.5: the pairs must be sorted; the library leaves that to the verifier
                    m.lenient |= v as i64 <= last;
                    last = v as i64;
                    if let Some(t) = t {
                        ck!(t.match_offsets[i].0 == v && t.match_offsets[i].1 == j, 929);
                    }
                    jumps.push((at, j));
                }
            }
            0xb2..=0xb9 => {
                let ix = c.u2()?;
                let (cl, nt) = match m.at(ix)? {
                    ME::Field(a, b) if op <= 0xb5 => (*a, *b),
                    ME::Method(a, b) if op >= 0xb6 && op <= 0xb8 => (*a, *b),
                    ME::IMethod(a, b) if op == 0xb9 => (*a, *b),
                    ME::IMethod(a, b) if op == 0xb7 || op == 0xb8 => {
                        let x = (*a, *b);
                        // only since class file version 52
                        m.lenient |= m.major < 52;
                        x
                    }
                    _ => return Err(516),
                };
                let mut count = 0;
                if op == 0xb9 {
                    count = c.u1()?;
                    if c.u1()? != 0 {
                        return Err(913);
                    }
                    // 6.5 invokeinterface: count is derived from the descriptor and not zero
                    m.lenient |= count == 0;
                }
                if let Some(r) = r {
                    let (o, x) = match r {
                        Opcode::Getstatic(x) => (0xb2, x),
                        Opcode::Putstatic(x) => (0xb3, x),
                        Opcode::Getfield(x) => (0xb4, x),
                        Opcode::Putfield(x) => (0xb5, x),
                        Opcode::Invokevirtual(x) => (0xb6, x),
                        Opcode::Invokespecial(x) => (0xb7, x),
                        Opcode::Invokestatic(x) => (0xb8, x),
                        Opcode::Invokeinterface(x, n) => {
                            ck!(*n == count, 934);
                            (0xb9, x)
                        }
                        _ => fail(935),
                    };
                    ck!(o == op, 936);
                    m.ck_member(cl, nt, x, 937);
                }
            }
            0xba => {
                let ix = c.u2()?;
                let (b, nt) = match m.at(ix)? {
                    ME::Indy(b, n) => (*b, *n),
                    _ => return Err(517),
                };
                if c.u2()? != 0 {
                    return Err(914);
                }
                match r {
                    None => {}
                    Some(Opcode::Invokedynamic(x)) => {
                        ck!(x.attr_index == b, 938);
                        m.ck_nat(nt, &x.name_and_type, 938);
                    }
                    _ => fail(939),
                }
            }
            0xbb => {
                let ix = c.u2()?;
                let n = m.class(ix)?;
                match r {
                    None => {}
                    Some(Opcode::New(s)) => ck!(s.as_bytes() == n, 940),
                    _ => fail(941),
                }
                // 6.5 new: not an array class; the library leaves that to the verifier
                let arr = !n.is_empty() && n[0] == b'[';
                m.lenient |= arr;
            }
            0xbc => {
                let t = c.u1()?;
                if t < 4 || t > 11 {
                    return Err(912);
                }
                use PrimitiveArrayType::*;
                let want = [Boolean, Char, Float, Double, Byte, Short, Int, Long];
                if let Some(r) = r {
                    match r {
                        Opcode::Newarray(x) => ck!(*x as u8 == want[t as usize - 4] as u8, 942),
                        _ => fail(943),
                    }
                }
            }
            0xbd | 0xc0 | 0xc1 | 0xc5 => {
                let ix = c.u2()?;
                let (o, x) = match r {
                    None => (op, None),
                    Some(Opcode::Anewarray(x)) => (0xbd, Some(x)),
                    Some(Opcode::Checkcast(x)) => (0xc0, Some(x)),
                    Some(Opcode::Instanceof(x)) => (0xc1, Some(x)),
                    Some(Opcode::Multianewarray(x, _)) => (0xc5, Some(x)),
                    _ => fail(944),
                };
                ck!(o == op, 945);
                let dims = array_type(m, ix, x)?;
                // 6.5 anewarray / multianewarray restrict the dimensions; left to the verifier
                m.lenient |= op == 0xbd && dims == 255;
                if op == 0xc5 {
                    let d = c.u1()?;
                    if let Some(Opcode::Multianewarray(_, n)) = r {
                        ck!(*n == d, 946);
                    }
                    m.lenient |= (d == 0) | (d as usize > dims);
                }
            }
            0xc4 => {
                let o = c.u1()?;
                match o {
                    0x15..=0x19 | 0x36..=0x3a | 0xa9 => local!(o, c.u2()?),
                    0x84 => {
                        let (x, v) = (c.u2()?, c.u2()? as i16);
                        if let Some(r) = r {
                            ck!(matches!(r, Opcode::Iinc(a, b) if *a == x && *b == v), 947);
                        }
                    }
                    _ => return Err(911),
                }
            }
            _ => return Err(915),
        }
        cover(2000 + op as u32);
    }
    if let Some(b) = bc {
        ck!(b.opcodes.len() == k, 948);
    }
    // every branch target is the offset of some instruction
    for (at, j) in &jumps {
        let t = *at as i64 + *j as i64;
        let mut found = false;
        for s in &starts {
            found |= *s as i64 == t;
        }
        if !found {
            return Err(1001);
        }
    }
    if !jumps.is_empty() {
        cover(20);
    }
    // the offset lookup is the inverse of the offsets of the decoded instructions
    if let Some(b) = bc {
        for (i, s) in starts.iter().enumerate() {
            ck!(b.get_opcode_index(*s) == Some(i), 1010);
            let next = if i + 1 < starts.len() { starts[i + 1] } else { code.len() + 2 };
            let mut q = *s + 1;
            while q < next && q < *s + 6 {
                ck!(b.get_opcode_index(q).is_none(), 1011);
                q += 1;
            }
        }
        ck!(b.get_opcode_index(usize::MAX).is_none(), 1012);
        if starts.is_empty() {
            ck!(b.get_opcode_index(0).is_none(), 1013);
        }
    }
    Ok(())
}
