"""Builds the analysed LLVM IR from /repo's current headers and a harness unit."""
import os, re, subprocess, tempfile, shutil
import ir

REPO = os.environ.get("TTL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
FLAGS = ["-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-exceptions",
         "-fno-rtti", "-fno-builtin", "-w"]
PASSES = "cgscc(inline),function(sroa,mem2reg)"


class BuildError(Exception):
    pass


def emit(unit, a, d, flags, defs=()):
    """compile harness/<unit> to IR in the file a; {entry: error} of the entries that had to be left out"""
    src = os.path.join(VERIF, "harness", unit)
    cmd = [CLANG] + list(flags) + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")] + ["-D" + x for x in defs]
    r = subprocess.run(cmd + ["-emit-llvm", "-S", "-o", a, src], capture_output=True, text=True)
    return compile_rest(cmd, src, a, d, unit, r.stderr) if r.returncode else {}


def module(unit, defs=(), inline=True, flags=(), ptr=8):
    """parsed module of harness/<unit>"""
    d = tempfile.mkdtemp(prefix="ttlv.")
    try:
        a, b = os.path.join(d, "a.ll"), os.path.join(d, "b.ll")
        dropped = emit(unit, a, d, FLAGS + list(flags), defs)
        passes = PASSES if inline else "function(sroa,mem2reg)"
        r = subprocess.run([OPT, "-S", "-passes=" + passes, "-inline-threshold=100000", a, "-o", b],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s: opt failed:\n%s" % (unit, r.stderr[:2000]))
        with open(b) as f:
            m = ir.parse(f.read())
        m.dropped = dropped
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def chunks(text):
    """top-level declarations of harness text, one by one; namespace and linkage braces are chunks of their own"""
    out, start, depth, i, n = [], 0, 0, 0, len(text)
    while i < n:
        c = text[i]
        if c in "\"'":
            j = i + 1
            while text[j] != c:
                j += 2 if text[j] == "\\" else 1
            i = j
        elif c == "{":
            if depth == 0 and re.fullmatch(r"\s*(namespace\s*\w*|extern\s*\"C\")\s*", text[start:i]):
                out.append(text[start:i + 1])
                start = i + 1
            else:
                depth += 1
        elif c == "}":
            if depth == 0:
                out.append(text[start:i + 1])
                start = i + 1
            else:
                depth -= 1
                if depth == 0 and not re.match(r"\s*[;,)=(.]", text[i + 1:]) and re.search(r"\)[\w\s]*\{", text[start:i]) \
                        and not re.match(r"\s*(struct|class|union|enum|typedef)\b", text[start:i]):
                    out.append(text[start:i + 1])
                    start = i + 1
        elif c == ";" and depth == 0:
            out.append(text[start:i + 1])
            start = i + 1
        i += 1
    out.append(text[start:])
    return [" ".join(x.split()) for x in out if x.strip()]


def compile_rest(cmd, src, a, d, unit, first):
    """the harness does not compile as a whole: compile it without the entries that do not; {entry: first error}"""
    r = subprocess.run(cmd + ["-E", src], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s does not compile:\n%s" % (unit, first[:4000]))
    segs, cur, mine = [], [], False
    for line in r.stdout.split("\n"):
        x = re.match(r'# \d+ "([^"]*)"', line)
        if x:
            own = x.group(1).startswith(os.path.join(VERIF, "harness"))
            if own != mine:
                segs.append((mine, cur))
                cur, mine = [], own
            if own:
                continue
        cur.append(line)
    segs.append((mine, cur))
    parts = []          # (harness?, text)
    for own, ls in segs:
        parts += [(True, c) for c in chunks("\n".join(ls))] if own else [(False, "\n".join(ls))]
    p = os.path.join(d, "rest.ii")
    dropped = {}
    for _ in range(40):
        with open(p, "w") as f:
            for i, (own, t) in enumerate(parts):
                f.write('# %d "HARNESS"\n%s\n' % (i + 1, t) if own else t + "\n")
        r = subprocess.run(cmd + ["-ferror-limit=0", "-emit-llvm", "-S", "-x", "c++-cpp-output", "-o", a, p], capture_output=True, text=True)
        if not r.returncode:
            return dropped
        err, bad = None, {}
        for line in r.stderr.split("\n"):
            x = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note): (.*)", line)
            if not x:
                continue
            if "error" in x.group(3):
                err = "%s:%s: %s" % (x.group(1), x.group(2), x.group(4))
            if x.group(1) == "HARNESS" and err and ("error" in x.group(3) or "requested here" in x.group(4)):
                bad.setdefault(int(x.group(2)) - 1, err)
                err = None
        bad = {i: e for i, e in bad.items() if parts[i][1]}
        if not bad:
            break
        for i, e in bad.items():
            x = re.search(r"(\w+)\s*\(", parts[i][1])
            dropped[x.group(1) if x else parts[i][1][:60]] = e
            parts[i] = (True, "")
    raise BuildError("%s does not compile:\n%s" % (unit, first[:4000]))


SEM = {
    "_ZN1EC1Ev": ("ctor",), "_ZN1EC2Ev": ("ctor",),
    "_ZN1EC1ERKS_": ("copy",), "_ZN1EC2ERKS_": ("copy",),
    "_ZN1ED1Ev": ("dtor",), "_ZN1ED2Ev": ("dtor",),
    "_ZN1EaSERKS_": ("assign",),
    "_ZeqRK1ES1_": ("pred", "eq", (0, 1)),
    "_ZltRK1ES1_": ("pred", "lt", (0, 1)),
    "_ZNK2P1clERK1E": ("pred", "P1", (1,)),
    "_ZNK2P2clERK1ES2_": ("pred", "P2", (1, 2)),
    "_ZNK2F1clER1E": ("apply", 1),
}


def layout_mismatch(m, sizes):
    """sizes: {symbol: expected value} of constants the harness exports; returns a description of the first deviation"""
    for name, want in sizes.items():
        g = m.globals.get(name)
        if g is None:
            return "the harness does not export " + name
        t, v, c = g
        if v is None or v[0] != "int" and v[0] != "zero":
            return "cannot read " + name
        got = v[1] if v[0] == "int" else 0
        if got != want:
            return "object layout changed: %s is %s, the pre-states assume %s" % (name, got, want)
    return None
