"""Gives every byte of a template its place in the class file format.

A plain walk over a concrete class file: each field becomes (offset, length, properties, name).
It only decides where symbolic bytes are put; nothing is judged by it.  A template that is
malformed is described as far as the walk gets.
"""
OPS_U1 = {0x10, 0xbc} | set(range(0x15, 0x1a)) | set(range(0x36, 0x3b)) | {0xa9}
OPS_LDC = {0x12}
OPS_CP = {0x13, 0x14} | set(range(0xb2, 0xb9)) | {0xbb, 0xbd, 0xc0, 0xc1}
OPS_BR2 = set(range(0x99, 0xa9)) | {0xc6, 0xc7}
OPS_BR4 = {0xc8, 0xc9}


class Field:
    __slots__ = ("off", "n", "props", "name")

    def __init__(self, off, n, props, name):
        self.off, self.n, self.props, self.name = off, n, props, name


class Walk:
    def __init__(self, v):
        self.v = v
        self.p = 0
        self.out = []
        self.utf = {}  # index -> (offset, length)
        self.ref = {}  # index -> (tag, index, index)
        self.used = {}  # index of a text -> set of properties

    # reading
    def u(self, n, props, name):
        if self.p + n > len(self.v):
            raise ValueError
        x = int.from_bytes(self.v[self.p:self.p + n], "big")
        if props:
            self.out.append(Field(self.p, n, tuple(props), name))
        self.p += n
        return x

    def use(self, i, *props):
        """the text at index i, or behind index i, is used for these properties"""
        if i in self.utf:
            self.used.setdefault(i, set()).update(props)
        elif i in self.ref:
            for k in self.ref[i][1:]:
                self.use(k, *props)

    def text(self, i):
        if i in self.utf:
            o, n = self.utf[i]
            return self.v[o:o + n]
        return b""

    # the file
    def file(self):
        try:
            self.head()
        except (ValueError, RecursionError):
            pass
        for i, props in self.used.items():
            o, n = self.utf[i]
            if n:
                self.out.append(Field(o, n, tuple(sorted(props)), "text"))
        for i, (o, n) in self.utf.items():
            if n and i not in self.used:
                self.out.append(Field(o, n, (6,), "unused-text"))
        return self.out

    def head(self):
        self.u(4, (4,), "magic")
        self.u(2, (4, 5), "minor")
        self.u(2, (4, 5, 14, 15), "major")
        n = self.u(2, (5,), "pool-count")
        i = 1
        while i < n:
            i += self.entry(i)
        for i, r in self.ref.items():
            t = r[0]
            if t == 7:
                self.use(r[1], 7)
            elif t == 8:
                self.use(r[1], 6)
            elif t == 12:
                self.use(r[1], 7)
                self.use(r[2], 8)
            elif t == 16:
                self.use(r[1], 8)
            elif t in (19, 20):
                self.use(r[1], 7)
        self.u(2, (4, 15), "class-flags")
        self.u(2, (4, 15), "this")
        self.u(2, (4, 15), "super")
        for _ in range(self.u(2, (4, 15), "interface-count")):
            self.u(2, (4,), "interface")
        for kind in ("field", "method"):
            for _ in range(self.u(2, (4, 15), kind + "-count")):
                self.u(2, (4, 15), kind + "-flags")
                self.use(self.u(2, (4, 7, 15), kind + "-name"), 7, 15, 4)
                self.use(self.u(2, (4, 8, 15), kind + "-descriptor"), 8, 15, 4)
                self.attributes(kind)
        self.attributes("class")

    def entry(self, i):
        t = self.u(1, (5,), "tag")
        if t == 1:
            n = self.u(2, (5, 6), "text-length")
            self.utf[i] = (self.p, n)
            self.u(n, (), "")
            if self.p > len(self.v):
                raise ValueError
        elif t in (3, 4):
            self.u(4, (5,), "number")
        elif t in (5, 6):
            self.u(8, (5,), "number")
            return 2
        elif t in (7, 8, 16, 19, 20):
            self.ref[i] = (t, self.u(2, (5,), "index"))
        elif t in (9, 10, 11, 12):
            self.ref[i] = (t, self.u(2, (5,), "index"), self.u(2, (5,), "index"))
        elif t in (17, 18):
            self.u(2, (5, 14, 15), "bootstrap-index")
            self.ref[i] = (t, self.u(2, (5,), "index"))
        elif t == 15:
            self.u(1, (5,), "handle-kind")
            self.ref[i] = (t, self.u(2, (5,), "index"))
        else:
            raise ValueError
        return 1

    def attributes(self, where):
        n = self.u(2, (11,), where + "-attribute-count")
        for _ in range(n):
            name = self.u(2, (11,), "attribute-name")
            self.use(name, 11)
            ln = self.u(4, (11,), "attribute-length")
            end = self.p + ln
            if end > len(self.v):
                raise ValueError
            f = getattr(self, "a_" + self.text(name).decode("latin1"), None)
            mark = len(self.out)
            try:
                if f is None:
                    raise ValueError
                f(end)
                if self.p != end:
                    raise ValueError
            except (ValueError, RecursionError):
                if self.p != end:
                    if f is None and ln:
                        self.out.append(Field(self.p, min(ln, 8), (11,), "unknown-content"))
                    self.p = end
                del mark

    # code
    def a_Code(self, end):
        self.u(2, (12,), "max-stack")
        self.u(2, (12,), "max-locals")
        n = self.u(4, (9, 11), "code-length")
        self.code(self.p, n)
        self.p += n
        for _ in range(self.u(2, (12, 11), "exception-count")):
            for x in ("start", "end", "handler"):
                self.u(2, (12, 16), "exception-" + x)
            self.u(2, (12, 16), "exception-type")
        self.attributes("code")

    def code(self, s, n):
        save, end = self.p, s + n
        if end > len(self.v):
            raise ValueError
        self.p = s
        try:
            while self.p < end:
                at = self.p - s
                op = self.u(1, (9,), "opcode")
                if op in OPS_U1 or op in OPS_LDC:
                    self.u(1, (9,), "operand")
                elif op in OPS_CP or op == 0x11:
                    self.u(2, (9,), "operand")
                    if op in (0xb9, 0xba):
                        self.u(1, (9,), "operand")
                        self.u(1, (9,), "operand")
                elif op == 0x84:
                    self.u(1, (9,), "operand")
                    self.u(1, (9,), "operand")
                elif op in OPS_BR2:
                    self.u(2, (9, 10), "branch")
                elif op in OPS_BR4:
                    self.u(4, (9, 10), "branch")
                elif op == 0xc5:
                    self.u(2, (9,), "operand")
                    self.u(1, (9,), "operand")
                elif op == 0xc4:
                    o2 = self.u(1, (9,), "wide-opcode")
                    self.u(2, (9,), "operand")
                    if o2 == 0x84:
                        self.u(2, (9,), "operand")
                elif op in (0xaa, 0xab):
                    pad = 3 - at % 4
                    if pad:
                        self.u(pad, (9,), "padding")
                    self.u(4, (9, 10), "switch-default")
                    if op == 0xaa:
                        lo = self.u(4, (9, 10), "switch-low")
                        hi = self.u(4, (9, 10), "switch-high")
                        k = ((hi - lo + (1 << 31)) & 0xffffffff) - (1 << 31) + 1
                        for _ in range(min(max(k, 0), 5000)):
                            self.u(4, (9, 10), "switch-target")
                    else:
                        for _ in range(min(self.u(4, (9, 10), "switch-count"), 5000)):
                            self.u(4, (9, 10), "switch-key")
                            self.u(4, (9, 10), "switch-target")
        except ValueError:
            pass
        self.p = save

    def a_LineNumberTable(self, end):
        for _ in range(self.u(2, (12,), "line-count")):
            self.u(2, (12,), "line-start")
            self.u(2, (12,), "line")

    def locals(self, sig):
        for _ in range(self.u(2, (12,), "local-count")):
            self.u(2, (12,), "local-start")
            self.u(2, (12,), "local-length")
            self.use(self.u(2, (12, 7), "local-name"), 7, 12)
            self.use(self.u(2, (12,), "local-type"), 6 if sig else 8, 12)
            self.u(2, (12,), "local-slot")

    def a_LocalVariableTable(self, end):
        self.locals(False)

    def a_LocalVariableTypeTable(self, end):
        self.locals(True)

    def vtype(self):
        t = self.u(1, (12,), "verification-type")
        if t in (7, 8):
            self.u(2, (12,), "verification-operand")

    def a_StackMapTable(self, end):
        for _ in range(self.u(2, (12,), "frame-count")):
            t = self.u(1, (12,), "frame-kind")
            if t < 64:
                pass
            elif t < 128:
                self.vtype()
            elif t < 247:
                raise ValueError
            elif t == 247:
                self.u(2, (12,), "frame-offset")
                self.vtype()
            elif t < 255:
                self.u(2, (12,), "frame-offset")
                for _ in range(max(0, t - 251)):
                    self.vtype()
            else:
                self.u(2, (12,), "frame-offset")
                for w in ("locals", "stack"):
                    for _ in range(self.u(2, (12,), "frame-" + w)):
                        self.vtype()

    # annotations
    def annotation(self):
        self.use(self.u(2, (13,), "annotation-type"), 8, 13)
        for _ in range(self.u(2, (13,), "element-count")):
            self.use(self.u(2, (13,), "element-name"), 6, 13)
            self.element()

    def element(self):
        t = chr(self.u(1, (13,), "element-tag"))
        if t in "BCDFIJSZs":
            i = self.u(2, (13,), "element-value")
            if t == "s":
                self.use(i, 6, 13)
        elif t == "e":
            self.use(self.u(2, (13,), "enum-type"), 8, 13)
            self.use(self.u(2, (13,), "enum-name"), 6, 13)
        elif t == "c":
            self.use(self.u(2, (13,), "element-class"), 8, 13)
        elif t == "@":
            self.annotation()
        elif t == "[":
            for _ in range(self.u(2, (13,), "element-array-count")):
                self.element()
        else:
            raise ValueError

    def annotations(self, end):
        for _ in range(self.u(2, (13,), "annotation-count")):
            self.annotation()

    a_RuntimeVisibleAnnotations = a_RuntimeInvisibleAnnotations = annotations

    def parameters(self, end):
        for _ in range(self.u(1, (13,), "parameter-count")):
            self.annotations(end)

    a_RuntimeVisibleParameterAnnotations = a_RuntimeInvisibleParameterAnnotations = parameters

    def a_AnnotationDefault(self, end):
        self.element()

    def types(self, end):
        for _ in range(self.u(2, (13,), "type-annotation-count")):
            t = self.u(1, (13,), "target-kind")
            if t in (0, 1):
                self.u(1, (13,), "target-index")
            elif t in (0x10, 0x17, 0x42, 0x43, 0x44, 0x45, 0x46):
                self.u(2, (13,), "target-index")
            elif t in (0x11, 0x12):
                self.u(1, (13,), "target-index")
                self.u(1, (13,), "target-bound")
            elif t in (0x13, 0x14, 0x15):
                pass
            elif t == 0x16:
                self.u(1, (13,), "target-index")
            elif t in (0x40, 0x41):
                for _ in range(self.u(2, (13,), "target-count")):
                    for x in ("start", "length", "slot"):
                        self.u(2, (13,), "target-" + x)
            elif 0x47 <= t <= 0x4b:
                self.u(2, (13,), "target-offset")
                self.u(1, (13,), "target-argument")
            else:
                raise ValueError
            for _ in range(self.u(1, (13,), "path-length")):
                self.u(1, (13,), "path-kind")
                self.u(1, (13,), "path-argument")
            self.annotation()

    a_RuntimeVisibleTypeAnnotations = a_RuntimeInvisibleTypeAnnotations = types

    # class attributes
    def one(self, name, *props):
        self.use(self.u(2, (14,), name), *props)

    def a_ConstantValue(self, end):
        self.one("constant-value", 14)

    def a_Exceptions(self, end):
        for _ in range(self.u(2, (14,), "exceptions-count")):
            self.one("exceptions-class", 7, 14)

    def a_Signature(self, end):
        self.one("signature", 6, 14)

    def a_SourceFile(self, end):
        self.one("source-file", 6, 14)

    def a_SourceDebugExtension(self, end):
        n = end - self.p
        if n:
            self.u(n, (6, 14), "debug-extension")

    def a_InnerClasses(self, end):
        for _ in range(self.u(2, (14,), "inner-count")):
            self.one("inner-class", 14)
            self.one("inner-outer", 14)
            self.one("inner-name", 7, 14)
            self.u(2, (14,), "inner-flags")

    def a_EnclosingMethod(self, end):
        self.one("enclosing-class", 14)
        self.one("enclosing-method", 7, 8, 14)

    def a_BootstrapMethods(self, end):
        for _ in range(self.u(2, (14, 15), "bootstrap-count")):
            self.one("bootstrap-method", 14)
            for _ in range(self.u(2, (14,), "bootstrap-argument-count")):
                self.one("bootstrap-argument", 14)

    def a_MethodParameters(self, end):
        for _ in range(self.u(1, (14,), "method-parameter-count")):
            self.one("method-parameter-name", 7, 14)
            self.u(2, (14,), "method-parameter-flags")

    def a_Module(self, end):
        M = (14, 15)
        self.u(2, M, "module-name")
        self.u(2, M, "module-flags")
        self.one("module-version", 6, 14)
        for _ in range(self.u(2, (14,), "requires-count")):
            self.one("requires-module", 7, 14)
            self.u(2, M, "requires-flags")
            self.one("requires-version", 6, 14)
        for w in ("exports", "opens"):
            for _ in range(self.u(2, (14,), w + "-count")):
                self.one(w + "-package", 7, 14)
                self.u(2, (14,), w + "-flags")
                for _ in range(self.u(2, (14,), w + "-to-count")):
                    self.one(w + "-to", 7, 14)
        for _ in range(self.u(2, (14,), "uses-count")):
            self.one("uses-class", 7, 14)
        for _ in range(self.u(2, (14,), "provides-count")):
            self.one("provides-class", 7, 14)
            for _ in range(self.u(2, (14,), "provides-with-count")):
                self.one("provides-with", 7, 14)

    def list(self, end):
        for _ in range(self.u(2, (14,), "list-count")):
            self.one("list-item", 7, 14)

    a_ModulePackages = a_NestMembers = a_PermittedSubclasses = list

    def a_ModuleMainClass(self, end):
        self.one("main-class", 7, 14)

    def a_NestHost(self, end):
        self.one("nest-host", 7, 14)

    def a_Record(self, end):
        for _ in range(self.u(2, (14,), "record-count")):
            self.use(self.u(2, (14, 7), "record-name"), 7, 14)
            self.use(self.u(2, (14, 8), "record-descriptor"), 8, 14)
            self.attributes("record")


def fields(v):
    return Walk(v).file()
