"""Parser for the subset of textual LLVM IR produced by clang 18 for the harness units."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<var>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<num>-?[0-9]+(?:\.[0-9e+\-]+)?|0x[0-9A-Fa-f]+)
 | (?P<attr>\#[0-9]+)
 | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise ParseError("tokenize: " + s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k == "var" and v[1] == '"':
            v = v[0] + v[2:-1]
        out.append((k, v))
        i = m.end()
    return out


# ---- types: ('i',n) ('ptr',) ('void',) ('struct',[types],packed) ('named',name) ('arr',n,t) ('float',w) ('vec',n,t) ('func',..) ('meta',)
class Types:
    def __init__(self, ptr=8):
        self.named = {}
        self.ptr = ptr

    def size(self, t):
        k = t[0]
        if k == "i":
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
        if k == "ptr":
            return self.ptr
        if k == "float":
            return t[1]
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "vec":
            return t[1] * self.size(t[2])
        if k == "named":
            return self.size(self.named[t[1]])
        if k == "struct":
            off = 0
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                off = (off + a - 1) // a * a + self.size(f)
            a = 1 if t[2] else self.align(t)
            return (off + a - 1) // a * a
        raise ParseError("size of %r" % (t,))

    def align(self, t):
        k = t[0]
        if k == "i":
            return self.size(t)
        if k == "ptr":
            return self.ptr
        if k == "float":
            return t[1]
        if k in ("arr", "vec"):
            return self.align(t[2])
        if k == "named":
            return self.align(self.named[t[1]])
        if k == "struct":
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] or [1])
        raise ParseError("align of %r" % (t,))

    def resolve(self, t):
        while t[0] == "named":
            t = self.named[t[1]]
        return t

    def field(self, t, i):
        """(offset, type) of member i"""
        t = self.resolve(t)
        if t[0] in ("arr", "vec"):
            return self.size(t[2]) * i, t[2]
        off = 0
        for j, f in enumerate(t[1]):
            a = 1 if t[2] else self.align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += self.size(f)
        raise ParseError("field")


ATTRW = {"noundef", "nonnull", "align", "dereferenceable", "dereferenceable_or_null", "zeroext", "signext",
         "noalias", "nocapture", "readonly", "readnone", "writeonly", "immarg", "returned", "sret", "byval",
         "writable", "dead_on_unwind", "inreg", "range", "nofree", "captures", "noreturn", "nounwind", "builtin", "allocsize",
         "allocptr", "allocalign", "inrange", "swiftself", "preallocated", "nest", "nofpclass"}
LINKAGE = {"dso_local", "internal", "linkonce_odr", "weak_odr", "private", "external", "available_externally", "hidden", "local_unnamed_addr",
           "unnamed_addr", "weak", "common", "linkonce", "protected", "default", "fastcc", "ccc", "constant", "global", "comdat"}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ParseError("expected %s got %s near %s" % (v, x, self.t[max(0, self.i - 5):self.i + 5]))

    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                t = ("ptr",)
            elif v == "void":
                t = ("void",)
            elif re.fullmatch(r"i\d+", v):
                t = ("i", int(v[1:]))
            elif v == "float":
                t = ("float", 4)
            elif v == "double":
                t = ("float", 8)
            elif v in ("x86_fp80", "fp128"):
                t = ("float", 16)
            elif v == "metadata":
                t = ("meta",)
            elif v == "label":
                t = ("label",)
            elif v == "token":
                t = ("token",)
            elif v == "opaque":
                t = ("opaque",)
            else:
                raise ParseError("type word " + v)
        elif k == "var":
            t = ("named", v[1:])
        elif v == "{":
            t = self.structbody("}", False)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                t = self.structbody("}", True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        else:
            raise ParseError("type %r" % ((k, v),))
        while self.peek()[1] == "(" and t[0] not in ("label",) and self.looks_functype():
            # function type
            self.next()
            args = []
            while not self.accept(")"):
                if self.peek()[0] == "dots":
                    self.next()
                    args.append(("...",))
                else:
                    args.append(self.type())
                self.accept(",")
            t = ("func", t, args)
        return t

    def looks_functype(self):
        # only used in calls of the form  call void (ptr, ...) @f(
        j = self.i
        d = 0
        while j < len(self.t):
            v = self.t[j][1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    break
            elif self.t[j][0] in ("var",) and v[0] == "@":
                return False
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] == "var" and d == 0

    def structbody(self, end, packed):
        fs = []
        while not self.accept(end):
            fs.append(self.type())
            self.accept(",")
        return ("struct", fs, packed)

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTRW:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                elif self.peek()[1] == "(":
                    self.skip_parens()
            elif k == "attr":
                self.next()
            else:
                return

    def skip_parens(self):
        d = 0
        while True:
            k, v = self.next()
            if k == "eof":
                raise ParseError("parens")
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return

    def value(self, ty):
        k, v = self.next()
        if k == "var":
            return ("var", v) if v[0] == "%" else ("glob", v[1:])
        if k == "num":
            if ty[0] == "float":
                return ("flt", v)
            return ("int", int(v, 0))
        if k == "word":
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "getelementptr":
                self.accept("inbounds")
                while self.peek()[1] in ("nuw", "nusw"):
                    self.next()
                self.accept("inrange")
                self.expect("(")
                t = self.type()
                self.expect(",")
                self.type()
                base = self.value(("ptr",))
                idx = []
                while self.accept(","):
                    self.accept("inrange")
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(")")
                return ("gep", t, base, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext", "sext"):
                self.expect("(")
                t = self.type()
                x = self.value(t)
                self.expect("to")
                t2 = self.type()
                self.expect(")")
                return ("cast", v, t, x, t2)
            if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
                while self.peek()[1] in ("nuw", "nsw"):
                    self.next()
                self.expect("(")
                t = self.type()
                a = self.value(t)
                self.expect(",")
                t2 = self.type()
                b = self.value(t2)
                self.expect(")")
                return ("binop", v, t, a, b)
            if v == "c":
                return ("str", self.next()[1])
        if v == "{" or v == "[" or v == "<":
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next()
                packed = True
                end = "}"
            else:
                end = {"{": "}", "[": "]", "<": ">"}[v]
            xs = []
            while not self.accept(end):
                t = self.type()
                xs.append((t, self.value(t)))
                self.accept(",")
            if packed:
                self.expect(">")
            return ("agg", xs)
        if k == "str":
            return ("str", v)
        if k == "meta":
            return ("meta", v)
        raise ParseError("value %r" % ((k, v),))


class Instr:
    __slots__ = ("op", "res", "a", "dbg", "id")

    def __init__(self, op, res, a, dbg):
        self.op = op
        self.res = res
        self.a = a
        self.dbg = dbg
        self.id = None

    def __repr__(self):
        return "%s = %s %r" % (self.res, self.op, self.a)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ptypes = []
        self.rty = None
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.heads = None


class Module:
    def __init__(self):
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.meta = {}
        self.source = ""

    def loc(self, mid):
        """list of (file, line, func) innermost first"""
        out = []
        while mid:
            t = self.meta.get(mid)
            if not t:
                break
            m = re.search(r"line: (\d+)", t)
            line = int(m.group(1)) if m else 0
            m = re.search(r"scope: (!\d+)", t)
            sc = m.group(1) if m else None
            f, fn = self.scope(sc)
            out.append((f, line, fn))
            m = re.search(r"inlinedAt: (!\d+)", t)
            mid = m.group(1) if m else None
        return out

    def scope(self, sc):
        fn = None
        f = None
        n = 0
        while sc and n < 20:
            n += 1
            t = self.meta.get(sc, "")
            if f is None:
                m = re.search(r"file: (!\d+)", t)
                if m:
                    ft = self.meta.get(m.group(1), "")
                    mm = re.search(r'filename: "([^"]*)"', ft)
                    f = mm.group(1) if mm else None
            if "DISubprogram" in t:
                m = re.search(r'name: "([^"]*)"', t)
                fn = m.group(1) if m else None
                break
            m = re.search(r"scope: (!\d+)", t)
            sc = m.group(1) if m else None
        return f, fn


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fptosi", "sitofp", "uitofp", "fptoui", "fpext", "fptrunc"}


def parse_instr(line):
    dbg = None
    m = re.search(r",\s*!dbg (!\d+)", line)
    if m:
        dbg = m.group(1)
    toks = tokenize(line)
    # cut trailing metadata attachments
    cut = []
    d = 0
    for j, (k, v) in enumerate(toks):
        if k == "p":
            if v in "([{<":
                d += 1
            elif v in ")]}>":
                d -= 1
        if k == "meta" and d == 0 and j > 0 and toks[j - 1][1] == ",":
            toks = toks[:j - 1]
            break
    p = P(toks)
    res = None
    if p.peek()[0] == "var" and p.peek(1)[1] == "=":
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    if op in BINOPS:
        while p.peek()[1] in ("nuw", "nsw", "exact", "disjoint"):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(op, res, (t, a, b), dbg)
    if op == "icmp":
        pr = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(op, res, (pr, t, a, b), dbg)
    if op == "br":
        if p.peek()[1] == "label":
            p.next()
            return Instr("br", None, (p.next()[1],), dbg)
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        l1 = p.next()[1]
        p.expect(",")
        p.expect("label")
        l2 = p.next()[1]
        return Instr("condbr", None, (c, l1, l2), dbg)
    if op == "switch":
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        dflt = p.next()[1]
        cases = []
        p.expect("[")
        while not p.accept("]"):
            tt = p.type()
            v = p.value(tt)
            p.expect(",")
            p.expect("label")
            cases.append((v[1], p.next()[1]))
        return Instr("switch", None, (t, c, dflt, cases), dbg)
    if op == "ret":
        t = p.type()
        if t[0] == "void":
            return Instr("ret", None, (t, None), dbg)
        return Instr("ret", None, (t, p.value(t)), dbg)
    if op == "unreachable":
        return Instr(op, None, (), dbg)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            l = p.next()[1]
            p.expect("]")
            inc.append((v, l))
            if not p.accept(","):
                break
        return Instr(op, res, (t, inc), dbg)
    if op == "select":
        t = p.type()
        c = p.value(t)
        p.expect(",")
        t1 = p.type()
        a = p.value(t1)
        p.expect(",")
        t2 = p.type()
        b = p.value(t2)
        return Instr(op, res, (c, t1, a, b), dbg)
    if op in CASTS:
        p.accept("nneg")
        t = p.type()
        v = p.value(t)
        p.expect("to")
        t2 = p.type()
        return Instr("cast", res, (op, t, v, t2), dbg)
    if op == "freeze":
        t = p.type()
        return Instr(op, res, (t, p.value(t)), dbg)
    if op == "alloca":
        t = p.type()
        n = None
        if p.accept(",") and p.peek()[1] != "align":
            tt = p.type()
            n = p.value(tt)
        return Instr(op, res, (t, n), dbg)
    if op == "load":
        p.accept("volatile")
        t = p.type()
        p.expect(",")
        p.type()
        return Instr(op, res, (t, p.value(("ptr",))), dbg)
    if op == "store":
        p.accept("volatile")
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.type()
        return Instr(op, None, (t, v, p.value(("ptr",))), dbg)
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            p.next()
        t = p.type()
        p.expect(",")
        p.type()
        b = p.value(("ptr",))
        idx = []
        while p.accept(","):
            it = p.type()
            idx.append((it, p.value(it)))
        return Instr(op, res, (t, b, idx), dbg)
    if op == "extractvalue":
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()[1]))
        return Instr(op, res, (t, v, idx), dbg)
    if op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()[1]))
        return Instr(op, res, (t, v, t2, v2, idx), dbg)
    if op == "call":
        while p.peek()[1] in ("fastcc", "ccc", "nsw"):
            p.next()
        p.skip_attrs()
        t = p.type()
        if t[0] == "func":
            t = t[1]
        p.skip_attrs()
        k, v = p.next()
        if k == "var":
            callee = ("var", v) if v[0] == "%" else ("glob", v[1:])
        else:
            raise ParseError("callee " + line)
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.type()
            p.skip_attrs()
            if at[0] == "meta":
                d = 0
                while True:
                    k, v = p.peek()
                    if d == 0 and v in (",", ")"):
                        break
                    if v in ("(", "{", "["):
                        d += 1
                    elif v in (")", "}", "]"):
                        d -= 1
                    p.next()
                args.append((at, ("meta",)))
            else:
                args.append((at, p.value(at)))
            p.accept(",")
        return Instr(op, res, (t, callee, args), dbg)
    raise ParseError("instr " + line)


def parse(text):
    m = Module()
    fn = None
    blk = None
    pend = None
    for raw in text.split("\n"):
        line = raw
        if pend is not None:
            pend += " " + line.strip()
            if line.strip() == "]" or line.strip().startswith("]"):
                line = pend
                pend = None
            else:
                continue
        s = line.strip()
        if fn is None:
            if not s or s[0] == ";":
                continue
            if s.startswith("%") and " = type " in s:
                name, rest = s.split(" = type ", 1)
                name = name[1:]
                if name[0] == '"':
                    name = name[1:-1]
                m.types.named[name] = P(tokenize(rest)).type()
                continue
            if s.startswith("!"):
                k, _, rest = s.partition(" = ")
                m.meta[k] = rest
                continue
            if s.startswith("source_filename"):
                m.source = s.split('"')[1]
                continue
            if s.startswith("declare"):
                mm = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", s)
                m.decls[mm.group(1).strip('"')] = s
                continue
            if s.startswith("define"):
                fn = parse_define(s)
                m.funcs[fn.name] = fn
                blk = None
                continue
            if s.startswith("@"):
                parse_global(m, s)
                continue
            continue
        if s == "}":
            fn = None
            continue
        if not s or s[0] == ";":
            continue
        lm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', line)
        if lm:
            blk = lm.group(1).strip('"')
            fn.blocks["%" + blk] = []
            fn.order.append("%" + blk)
            continue
        if s.startswith("switch") and s.endswith("["):
            pend = s
            continue
        if blk is None:
            # unnamed entry block: number = count of params
            nm = "%" + str(len(fn.params)) if all(re.fullmatch(r"%\d+", x) for x in fn.params) else "%entry"
            fn.blocks[nm] = []
            fn.order.append(nm)
            blk = nm[1:]
        ins = parse_instr(s)
        ins.id = len(fn.blocks["%" + blk])
        fn.blocks["%" + blk].append(ins)
    return m


def parse_global(m, s):
    toks = tokenize(re.sub(r",\s*(align \d+|comdat.*|section \"[^\"]*\"|!dbg.*|no_sanitize\w*).*$", "", s))
    p = P(toks)
    name = p.next()[1][1:]
    p.expect("=")
    ext = False
    const = False
    while p.peek()[0] == "word" and p.peek()[1] in LINKAGE:
        w = p.next()[1]
        if w == "external":
            ext = True
        if w == "constant":
            const = True
    if p.peek()[1] == "alias":
        m.globals[name] = ("alias", s)
        return
    try:
        t = p.type()
        v = None if ext or p.peek()[0] == "eof" else p.value(t)
        m.globals[name] = (t, v, const)
    except ParseError:
        m.globals[name] = (("opaque",), None, const)


def parse_define(s):
    s2 = s[len("define"):]
    mm = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", s2)
    name = mm.group(1).strip('"')
    f = Func(name)
    dm = re.search(r"!dbg (!\d+)", s)
    f.dbg = dm.group(1) if dm else None
    head = P([t for t in tokenize(s2[:mm.start()]) if not (t[0] == "word" and t[1] in LINKAGE)])
    head.skip_attrs()
    f.rty = head.type()
    # params
    i = mm.end()
    d = 1
    j = i
    while d:
        if s2[j] == "(":
            d += 1
        elif s2[j] == ")":
            d -= 1
        elif s2[j] == '"':
            j = s2.index('"', j + 1)
        j += 1
    p = P(tokenize(s2[i:j - 1]))
    n = 0
    while p.peek()[0] != "eof":
        t = p.type()
        p.skip_attrs()
        if p.peek()[0] == "var":
            f.params.append(p.next()[1])
        else:
            f.params.append("%" + str(n))
        f.ptypes.append(t)
        n += 1
        p.accept(",")
    return f


def succs(ins):
    if ins.op == "br":
        return [ins.a[0]]
    if ins.op == "condbr":
        return [ins.a[1], ins.a[2]]
    if ins.op == "switch":
        return [ins.a[2]] + [l for _, l in ins.a[3]]
    return []


def operands(ins):
    """SSA names used (excluding phi)"""
    out = []

    def v(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "var":
                out.append(x[1])
            else:
                for y in x:
                    v(y)
        elif isinstance(x, list):
            for y in x:
                v(y)
    v(ins.a)
    return out


def analyse_cfg(f):
    """loop headers (targets of DFS back edges) and live-in SSA names per block"""
    if f.heads is not None:
        return
    entry = f.order[0]
    succ = {b: (succs(f.blocks[b][-1]) if f.blocks[b] else []) for b in f.order}
    color = {}
    heads = set()
    stack = [(entry, iter(succ[entry]))]
    color[entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            stack.pop()
    # loop bodies: blocks that can reach the header without leaving... (natural loop by reverse reachability)
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]:
            pred[s].append(b)
    f.loops = {}
    # header h: body = all blocks on a cycle through h (SCC of h within the subgraph dominated... approx: reach(h) & coreach(h))
    dom = dominators(f, entry, succ, pred)
    for h in heads:
        body = {h}
        work = [b for b in pred[h] if h in dom.get(b, ())]
        body.update(work)
        while work:
            x = work.pop()
            if x == h:
                continue
            for q in pred[x]:
                if q not in body and q in dom:
                    body.add(q)
                    work.append(q)
        f.loops[h] = body
    live_in = {b: set() for b in f.order}
    use = {}
    deff = {}
    phiuse = {b: {} for b in f.order}
    for b in f.order:
        u, d = set(), set()
        for ins in f.blocks[b]:
            if ins.op == "phi":
                d.add(ins.res)
                for v, l in ins.a[1]:
                    if v[0] == "var":
                        phiuse[b].setdefault(l, set()).add(v[1])
                continue
            for o in operands(ins):
                if o not in d:
                    u.add(o)
            if ins.res:
                d.add(ins.res)
        use[b], deff[b] = u, d
    changed = True
    while changed:
        changed = False
        for b in reversed(f.order):
            out = set()
            for s in succ[b]:
                out |= live_in[s] - {i.res for i in f.blocks[s] if i.op == "phi"}
                out |= phiuse[s].get(b, set())
            new = use[b] | (out - deff[b])
            if new != live_in[b]:
                live_in[b] = new
                changed = True
    f.live_in = live_in
    f.live_out = {}
    for b in f.order:
        out = set()
        for x in succ[b]:
            out |= live_in[x] - {i.res for i in f.blocks[x] if i.op == "phi"}
            out |= phiuse[x].get(b, set())
        f.live_out[b] = out
    f.after = {}
    f.phis = {b: [i.res for i in f.blocks[b] if i.op == "phi"] for b in f.order}
    f.heads = heads
    f.succ = succ
    f.idle = {h: idle(f, h) for h in heads}


EFFECTS = {"load", "store", "call", "br", "condbr", "switch", "ret", "unreachable", "alloca"}


def idle(f, h):
    """names live at loop header h that influence no branch, call or memory access inside the loop"""
    body = f.loops[h]
    defs = {}
    work = []
    for b in body:
        for ins in f.blocks[b]:
            if ins.res:
                defs[ins.res] = ins
            if ins.op in EFFECTS:
                work += operands(ins)
    rel = set()
    while work:
        x = work.pop()
        if x in rel:
            continue
        rel.add(x)
        d = defs.get(x)
        if d is not None and d.op not in EFFECTS:
            work += [v[1] for v, _ in d.a[1] if v[0] == "var"] if d.op == "phi" else operands(d)
    return (f.live_in[h] | set(f.phis[h])) - rel


def live_after(f, b, ip):
    """SSA names still needed once instruction ip of block b has been executed"""
    r = f.after.get((b, ip))
    if r is None:
        r = set(f.live_out[b])
        for ins in f.blocks[b][ip + 1:]:
            if ins.op != "phi":
                r.update(operands(ins))
        f.after[(b, ip)] = r
    return r


def dominators(f, entry, succ, pred):
    reach = set()
    work = [entry]
    while work:
        b = work.pop()
        if b in reach:
            continue
        reach.add(b)
        work += succ[b]
    order = [b for b in f.order if b in reach]
    dom = {b: set(order) for b in order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[q] for q in pred[b] if q in reach]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom
