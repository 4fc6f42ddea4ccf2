"""Compares the exported interface the compiler reports with the C header as clang parses it."""
import json, os, re, subprocess

PRIM = {"unsigned char": "u8", "signed char": "i8", "char": "i8", "unsigned short": "u16", "short": "i16", "int": "i32", "unsigned int": "u32", "long": "i64", "unsigned long": "u64",
        "long long": "i64", "unsigned long long": "u64", "_Bool": "bool", "bool": "bool", "void": "void", "float": "f32", "double": "f64"}
SIZE = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "enum": 4}
DEFS = {"dev-all": ["ALLOC", "STD", "EXPERIMENTAL"], "dev-default": ["ALLOC", "STD"], "dev-alloc": ["ALLOC"], "dev-none": []}


def norm(c):
    return {"usize": "u64", "isize": "i64"}.get(c, c)


class Header:
    def __init__(self, path, defs):
        args = ["-x", "c"] + ["-DDEFINE_" + d for d in defs] + [path]
        r = subprocess.run(["clang", "-fsyntax-only", "-Xclang", "-ast-dump=json"] + args, capture_output=True, text=True)
        if r.returncode != 0:
            raise ValueError("the header does not compile: " + r.stderr[:600])
        self.typedefs, self.enums, self.structs, self.fns, self.line = {}, {}, {}, {}, 0
        self.attrs = False
        for n in json.loads(r.stdout)["inner"]:
            k = n.get("kind")
            self.line = n.get("loc", {}).get("line", n.get("loc", {}).get("expansionLoc", {}).get("line", self.line))
            if k == "TypedefDecl":
                self.typedefs[n["name"]] = n["type"]["qualType"]
            elif k == "EnumDecl":
                vals, nxt = [], 0
                for c in n.get("inner", []):
                    if c["kind"] != "EnumConstantDecl":
                        continue
                    v = find_value(c)
                    nxt = int(v) if v is not None else nxt
                    vals.append((c["name"], nxt))
                    nxt += 1
                if n.get("name"):
                    self.enums[n["name"]] = (vals, self.line)
            elif k == "RecordDecl" and n.get("name"):
                fs = [(f["name"], f["type"]["qualType"]) for f in n.get("inner", []) if f["kind"] == "FieldDecl"]
                if any("Attr" in f["kind"] for f in n.get("inner", [])) or any(f.get("isBitfield") for f in n.get("inner", [])):
                    self.attrs = True
                if n.get("completeDefinition"):
                    self.structs[n["name"]] = (fs, self.line)
            elif k == "FunctionDecl" and not n.get("isImplicit"):
                f = n["loc"].get("includedFrom") or n["loc"].get("expansionLoc", {}).get("includedFrom")
                if f:
                    continue
                ps = [(p.get("name", ""), p["type"]["qualType"]) for p in n.get("inner", []) if p["kind"] == "ParmVarDecl"]
                ret = n["type"]["qualType"].split("(", 1)[0].strip()
                self.fns[n["name"]] = (ps, ret, self.line)
        r = subprocess.run(["clang", "-dM", "-E"] + args, capture_output=True, text=True)
        self.consts = {}
        for m in re.finditer(r"^#define (\w+) \(?(0x[0-9a-fA-F]+|\d+)[uUlL]*\)?$", r.stdout, re.M):
            self.consts[m.group(1)] = int(m.group(2), 0)

    def cls(self, q):
        """(spelled name, class) of a C type; class as in abi.rs."""
        q = re.sub(r"\brestrict\b|\bvolatile\b", "", q).strip()
        if q.endswith("*const"):
            q = q[:-5].strip()
        if q.endswith("*"):
            p = q[:-1].strip()
            const = bool(re.search(r"\bconst\b", p))
            p = re.sub(r"\bconst\b", "", p).strip()
            return "", "ptr %s %s" % ("const" if const else "mut", self.name(p))
        q = re.sub(r"\bconst\b", "", q).strip()
        return self.name(q), self.resolve(q)

    def name(self, q):
        q = re.sub(r"^(struct|enum|union) ", "", q).strip()
        return q

    def resolve(self, q):
        seen = 0
        while seen < 20:
            seen += 1
            if q in PRIM:
                return PRIM[q]
            if q.startswith("struct "):
                return q
            if q.startswith("enum "):
                return "enum"
            if q in self.typedefs:
                q = self.typedefs[q]
                continue
            return "?" + q
        return "?"

    def prim_name(self, n):
        c = self.resolve(n)
        return c if c in SIZE or c == "void" else n

    def layout(self, s):
        """[(name, offset, size, element type name, element class, count)], size, align"""
        fs, _ = self.structs[s]
        off, al, out = 0, 1, []
        for name, q in fs:
            m = re.match(r"^(.*?)\s*((?:\[\d+\])*)$", q)
            base, dims = m.group(1), [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]
            n, c = self.cls(base)
            if c.startswith("ptr"):
                sz, a = 8, 8
            elif c.startswith("struct "):
                _, sz, a = self.layout(c[7:])
            else:
                sz = a = SIZE.get(c, 1)
            cnt = 1
            for d in dims:
                cnt *= d
            off = (off + a - 1) // a * a
            out.append((name, off, sz * cnt, n, c, cnt if dims else -1))
            off += sz * cnt
            al = max(al, a)
        return out, (off + al - 1) // al * al, al


def find_value(n):
    for c in n.get("inner", []):
        if "value" in c and c.get("kind") in ("ConstantExpr", "IntegerLiteral"):
            return c["value"]
        v = find_value(c)
        if v is not None:
            return v
    return None


def compare(repo, config, notes):
    """-> (violations [(what, site)], undecided [..], facts)"""
    path = os.path.join(repo, "include", "shogi_core.h")
    bad, und, facts = [], [], 0
    if config not in DEFS:
        return bad, und, facts
    if not os.path.exists(path):
        return bad, ["the header include/shogi_core.h was not found"], facts
    try:
        h = Header(path, DEFS[config])
    except ValueError as e:
        return [(str(e), "include/shogi_core.h")], und, facts
    abi = [json.loads(n[4:]) for n in notes if n.startswith("ABI ")]
    fns = {a["fn"]: a for a in abi if "fn" in a}
    types = {a["type"]: a for a in abi if "type" in a}
    consts = {a["const"]: a["value"] for a in abi if "const" in a}
    at = lambda line: "include/shogi_core.h:%d" % line
    prim = set(SIZE) | {"void"}

    def same(header_q, rust):
        """rust = [param, name, class]"""
        hn, hc = h.cls(header_q)
        _, rn, rc = rust
        rc = norm(rc)
        if rc == "?":
            return True  # reported by the compiler side
        if rc.startswith("ptr") or hc.startswith("ptr"):
            if not (rc.startswith("ptr") and hc.startswith("ptr")):
                return False
            _, rm, rp = rc.split(" ", 2)
            _, hm, hp = hc.split(" ", 2)
            if rm != hm:
                return False
            rp, hp0 = norm(rp), hp
            hp = h.prim_name(hp0) if h.name(hp0) not in types else hp0
            if rp in prim or hp in prim:
                # a pointer to bytes: character types are interchangeable
                eq = {"i8": "u8"}
                rpc = norm(types[rp]["class"]) if rp in types else rp
                hpc = norm(types[hp]["class"]) if hp in types else hp
                return eq.get(rpc, rpc) == eq.get(hpc, hpc)
            return rp == hp
        if hc != rc:
            return False
        if hn in types and rn in types and hn != rn:
            return False
        if hn in types and rn in prim:
            return types[hn]["class"] == rc
        return True

    for n, a in sorted(fns.items()):
        facts += 1
        if n not in h.fns:
            bad.append((f"{n} is exported but not declared in the header", a["site"]))
            continue
        ps, ret, line = h.fns[n]
        sig = a["sig"]
        if len(ps) != len(sig) - 1:
            bad.append((f"{n} is declared with {len(ps)} parameters and defined with {len(sig) - 1}", at(line)))
            continue
        for i, ((pn, q), r) in enumerate(zip(ps, sig)):
            if not same(q, r):
                bad.append((f"{n}: parameter {i + 1} is declared as '{q}' and defined as {r[1]}", at(line)))
        if not same(ret, sig[-1]):
            bad.append((f"{n}: the result is declared as '{ret}' and defined as {sig[-1][1]}", at(line)))
        hn, rn = [p[0] for p in ps], [s[0] for s in sig[:-1]]
        if hn != rn and sorted(hn) == sorted(rn) and len(set(hn)) == len(hn):
            bad.append((f"{n}: the parameters are declared in the order {hn} and defined in the order {rn}", at(line)))
    # the functions on allocating types are declared in every configuration (cbindgen guards types, not methods)
    for n, (_, _, line) in sorted(h.fns.items()):
        facts += 1
        if n not in fns and "ALLOC" in DEFS[config]:
            bad.append((f"{n} is declared in the header but not exported", at(line)))
    used = {s[1] for a in fns.values() for s in a["sig"]}
    for n, a in sorted(types.items()):
        if a["kind"] == "enum" and n in used and a["values"]:
            facts += 1
            if n not in h.enums:
                bad.append((f"the enumerators of {n} are not declared in the header", a["site"]))
                continue
            vals, line = h.enums[n]
            if sorted(map(tuple, a["values"])) != sorted(vals):
                bad.append((f"the enumerators of {n} differ: the header has {vals}, the library {a['values']}", at(line)))
        if n in h.structs:
            facts += 1
            line = h.structs[n][1]
            if a["repr"] not in ("C",):
                bad.append((f"{n} is defined in the header but its layout in the library is not fixed", at(line)))
                continue
            if h.attrs:
                und.append("the header uses packing or alignment attributes")
                continue
            fl, size, align = h.layout(n)
            if size != a["size"] or align != a["align"]:
                bad.append((f"{n} takes {size} bytes aligned to {align} in the header and {a['size']} aligned to {a['align']} in the library", at(line)))
            rf = sorted(a["fields"], key=lambda f: f[1])
            if len(rf) != len(fl):
                bad.append((f"{n} has {len(fl)} fields in the header and {len(rf)} in the library", at(line)))
                continue
            for (hn, ho, hs, ht, hc, hk), (rn, ro, rs, rt, rc, rk) in zip(fl, rf):
                rc = norm(rc)
                if (ho, hs) != (ro, rs) or rc != "?" and hc != rc or ht in types and rt in types and ht != rt:
                    bad.append((f"{n}: field {hn} is {hs} bytes of {ht} at {ho} in the header and {rs} bytes of {rt} at {ro} in the library", at(line)))
            hn, rn = [f[0] for f in fl], [f[0] for f in rf]
            if hn != rn and sorted(hn) == sorted(rn):
                bad.append((f"{n}: the header's fields are in another order than the library's", at(line)))
        if n in h.typedefs and not h.typedefs[n].startswith("struct "):
            facts += 1
            if h.resolve(n) != norm(a["class"]) and a["class"] != "?":
                bad.append((f"{n} is {h.resolve(n)} in the header and {a['class']} in the library", "include/shogi_core.h"))
    for n, v in sorted(h.consts.items()):
        t = n.split("_")[0]
        if t in types:
            facts += 1
            if n not in consts:
                bad.append((f"the constant {n} of the header is not in the library", "include/shogi_core.h"))
            elif consts[n] != v:
                bad.append((f"{n} is {v} in the header and {consts[n]} in the library", "include/shogi_core.h"))
    return bad, und, facts
