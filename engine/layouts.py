"""Field order of the library's records: the pre-states of the abstract interpretation place fields at fixed offsets, so a tree whose
records are laid out differently (members reordered, another representation) is not analysed rather than misread."""
import json, os, re, subprocess
import build

TABLE = os.path.join(build.VERIF, "harness", "layouts.json")
KEY = re.compile(r"^(class|struct) (ttl::(vector|fixed_vector|list|forward_list|backward_list|lazy_queue|rbtree|map|set|sorted_vector_map|"
                 r"vector_map|array)<|ttl::pair<(struct|const struct) |N[NB]$|IB$)")


def records(unit, defs=()):
    """{record: [[offset, type, field], ...]} of the leaf fields, in offset order; pointers are all alike"""
    flags = [f for f in build.FLAGS if not f.startswith("-g")]
    cmd = [build.CLANG] + flags + ["-I" + build.REPO, "-I" + os.path.join(build.VERIF, "harness")] + ["-D" + x for x in defs] + \
          ["-Xclang", "-fdump-record-layouts", "-S", "-emit-llvm", "-o", os.devnull, os.path.join(build.VERIF, "harness", unit)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    out = {}
    if r.returncode:
        return out
    for blk in r.stdout.split("*** Dumping AST Record Layout")[1:]:
        rows = []
        for line in blk.split("\n"):
            x = re.match(r"\s*(\d+)(?::[\d-]+)? \| (\s*)(.*)$", line)
            if x:
                rows.append((int(x.group(1)), len(x.group(2)), x.group(3)))
        if not rows or not KEY.match(rows[0][2]) or "vc_" in rows[0][2]:
            continue
        leaves = []
        for i, (off, ind, text) in enumerate(rows[1:], 1):
            if i + 1 < len(rows) and rows[i + 1][1] > ind or "(empty)" in text or text.endswith("(base)") or " " not in text:
                continue
            t, n = text.rsplit(" ", 1)
            leaves.append([off, "ptr" if t.rstrip().endswith("*") else t if re.fullmatch(r"[a-zA-Z_ ]+", t) else "", n])
        if leaves:
            out[rows[0][2]] = leaves
    return out


def offsets(fields):
    """{name: offsets} of a record's fields (a name may occur in several bases)"""
    out = {}
    for off, _, n in fields:
        out.setdefault(n, []).append(off)
    return out


def mismatch(unit, defs=()):
    """description of the first record whose fields are not where the pre-states put them, else None"""
    with open(TABLE) as f:
        want = json.load(f).get(unit, {})
    got = records(unit, defs) if want else {}
    for rec, w in want.items():
        g = got.get(rec)
        if g is None or g == w:
            continue
        if [x[:2] for x in g] != [x[:2] for x in w]:
            return "object layout changed: the fields of %s are %s, the pre-states assume %s" % (rec, g, w)
        wn, gn = offsets(w), offsets(g)
        moved = [n for n in wn if n in gn and gn[n] != wn[n]]
        if moved:
            return "object layout changed: field %s of %s is at offset %s, the pre-states assume %s" % (moved[0], rec, gn[moved[0]], wn[moved[0]])
    return None


if __name__ == "__main__":      # regenerates the table from the current tree
    t = {u: records(u) for u in sorted(os.listdir(os.path.join(build.VERIF, "harness"))) if u.endswith(".cpp") and u not in ("constops.cpp", "bitset.cpp")}
    with open(TABLE, "w") as f:
        json.dump({u: v for u, v in t.items() if v}, f, indent=0, sort_keys=True)
        f.write("\n")
