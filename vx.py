#!/usr/bin/env python3
"""Driver: extracts the functions of /repo, splices the contracts in, runs Verus, reports per property.

  vx.py check C01 [--thorough]     the check registered in MANIFEST.json
  vx.py gen [C01|all] FILE         write the generated Verus file (debugging)
  vx.py fn KEY                     print an extracted function with its markers (debugging)
"""
import sys, os, re, json, subprocess, time, hashlib, glob, tempfile, shutil, fnmatch

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "tools"))

MARK = re.compile(r"__vx_[A-Za-z0-9_]+__(?![A-Za-z0-9_])")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def env():
    e = dict(os.environ)
    r = sh(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; env -0"])
    for kv in r.stdout.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e.pop("CARGO_TARGET_DIR", None)
    return e


# ------------------------------------------------------------------ extraction

def vx_binary():
    b = os.path.join(VERIF, "tools/vx/target/release/vx")
    src = glob.glob(os.path.join(VERIF, "tools/vx/src/*.rs")) + [os.path.join(VERIF, "tools/vx/Cargo.toml")]
    if not os.path.exists(b) or any(os.path.getmtime(f) > os.path.getmtime(b) for f in src):
        r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "tools/vx"), env=env())
        if r.returncode != 0:
            raise RuntimeError("building tools/vx failed:\n" + r.stderr[-4000:])
    return b


def extract():
    cfg = json.load(open(os.path.join(VERIF, "contracts/config.json")))
    for r in cfg["roots"]:
        r["dir"] = r["dir"].replace("/repo", REPO)
    os.makedirs(OUT, exist_ok=True)
    d = tempfile.mkdtemp(dir=OUT)
    try:
        c, o = os.path.join(d, "c.json"), os.path.join(d, "o.json")
        json.dump(cfg, open(c, "w"))
        r = sh([vx_binary(), c, o])
        if r.returncode != 0:
            raise RuntimeError("extraction failed: " + r.stderr[-2000:])
        return json.load(open(o)), cfg
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ contracts

class Contract:
    def __init__(self, key):
        self.key = key
        self.props, self.ret, self.attrs = [], "r", []
        self.requires, self.ensures, self.decreases = [], [], []
        self.at = {}
        self.trusted = None      # reason: contract assumed, body not verified
        self.file = None
        self.impl = None         # override of the impl header
        self.name = None         # override of the name
        self.expand = None


def load_contracts():
    cs = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts/*.vx"))):
        cur, sec = None, None
        macros = {}
        for n, line in enumerate(open(f), 1):
            line = line.rstrip("\n")
            if not line.strip() or line.startswith("#"):
                continue
            if line.startswith("define "):
                _, name = line.split(None, 1)
                macros[name.strip()] = []
                cur, sec = None, macros[name.strip()]
                continue
            if not line[0].isspace():
                w = line.split(None, 1)
                kw, rest = w[0], (w[1] if len(w) > 1 else "")
                if kw == "fn":
                    cur = []
                    for k in rest.split():
                        c = Contract(k)
                        c.file = os.path.basename(f)
                        assert k not in cs, ("duplicate contract", k)
                        cs[k] = c
                        cur.append(c)
                    sec = None
                elif kw == "end":
                    cur, sec = None, None
                elif kw == "props":
                    for c in cur: c.props = rest.split()
                elif kw == "impl":
                    for c in cur: c.impl = "impl " + rest.strip()
                elif kw == "name":
                    for c in cur: c.name = rest.strip()
                elif kw == "ret":
                    for c in cur: c.ret = rest.strip()
                elif kw == "attr":
                    for c in cur: c.attrs.append(rest.strip())
                elif kw == "trusted":
                    for c in cur: c.trusted = rest.strip()
                elif kw in ("requires", "ensures", "decreases"):
                    sec = kw
                    if rest:
                        for c in cur: getattr(c, kw).append("  " + rest)
                elif kw == "at":
                    sec = ("at", rest.strip())
                    for c in cur: c.at.setdefault(rest.strip(), [])
                else:
                    raise ValueError("%s:%d: %s" % (f, n, line))
            else:
                m = re.match(r"\s*use (\w+)\s*$", line)
                lines = macros[m.group(1)] if m and m.group(1) in macros else [line]
                if cur is None:
                    sec.extend(lines)
                elif isinstance(sec, str):
                    for c in cur: getattr(c, sec).extend(lines)
                else:
                    for c in cur: c.at[sec[1]].extend(lines)
    return cs


# ------------------------------------------------------------------ generation

class Gen:
    def __init__(self):
        self.lines = []
        self.map = []           # per line: (fnkey or None, kind, tags)

    def add(self, text, key=None, kind="x"):
        for l in text.split("\n"):
            m = re.findall(r"//@([C0-9 ]+)", l)
            self.lines.append(l)
            self.map.append((key, kind, m[0].split() if m else []))


def impl_header(it):
    return it["impl"]


def emit_fn(g, it, c, with_body, subst, lost):
    key = it["key"]
    attrs = ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]"] if with_body and it["loops"] and "isolate" not in c.attrs else []
    for a in c.attrs:
        if a == "isolate":
            continue
        if with_body or not a.startswith(("rlimit", "spinoff", "exec_allows")):
            attrs.append("#[verifier::%s]" % a)
    if not with_body:
        attrs.append("#[verifier::external_body]")
    ret = " -> (%s: %s)" % (c.ret, it["ret"]) if it["ret"] else ""
    impl = c.impl or it["impl"]
    if impl:
        g.add(impl.rstrip()[:-1] if impl.rstrip().endswith("}") else impl + " {", key, "hdr")
    gen = it["generics"] or ""
    where = it.get("where") or ""
    for a in attrs:
        g.add(a, key, "hdr")
    vis = "" if impl and re.match(r"impl\s*(<[^{]*>)?\s*[\w<>', ]+ for ", impl) else "pub "
    g.add(vis + "fn %s%s(%s)%s %s" % (c.name or it["name"], gen, ", ".join(it["params"]), ret, where), key, "sig")
    for sec in ("requires", "ensures", "decreases"):
        ls = getattr(c, sec)
        if ls and not (sec == "decreases" and not with_body):
            g.add("  " + sec, key, sec)
            for l in ls:
                g.add(subst(l), key, sec)
    if not with_body:
        g.add("{ unimplemented!() }", key, "stub")
    else:
        body = it["body"]
        used = set()
        g.add("{", key, "body")
        nth = {}
        for line in body.split("\n"):
            pos = 0
            out = ""
            for m in MARK.finditer(line):
                out += line[pos:m.start()]
                pos = m.end()
                nth[m.group(0)] = nth.get(m.group(0), 0) + 1
                at = "%s#%d" % (m.group(0), nth[m.group(0)])
                at = at if at in c.at else m.group(0)
                if at in c.at:
                    used.add(at)
                    if out.strip():
                        g.add(out, key, "body")
                    out = ""
                    for l in c.at[at]:
                        g.add(subst(l), key, "ann")
            out += line[pos:]
            if out.strip():
                g.add(out, key, "body")
        g.add("}", key, "body")
        for a in c.at:
            if a not in used:
                lost.append((key, a))
    if impl:
        g.add("}", key, "hdr")


def dispatch(ex, g):
    """Closed-world dynamic dispatch: one enum per object-safe trait, one generated match per method."""
    items = ex["items"]
    for spec in ex["cfg"]["dyn"]:
        tr, impls = spec["trait"], []
        for k, it in items.items():
            if it["kind"] == "fn" and it.get("trait") == tr and it["impl"] and k.startswith("core::"):
                ty = re.match(r"impl\s+(\w+)", it["impl"]).group(1)
                if ty not in impls:
                    impls.append(ty)
        order = impls
        g.add("pub enum VxDyn%s { %s }" % (tr, ", ".join(["%s(%s)" % (t, t) for t in order] + ["Plugin(VxPlugin%s)" % tr])))
        for t in order + ["VxPlugin" + tr]:
            v = t if t != "VxPlugin" + tr else "Plugin"
            g.add("impl VxIntoDyn%s for %s { open spec fn dynv(self) -> VxDyn%s { VxDyn%s::%s(self) } fn vx_dyn_(self) -> (r: VxDyn%s) { VxDyn%s::%s(self) } }" % (tr, t, tr, tr, v, tr, tr, v))
        g.add("pub trait VxIntoDyn%s: Sized { spec fn dynv(self) -> VxDyn%s; fn vx_dyn_(self) -> (r: VxDyn%s) ensures r == self.dynv(); }" % (tr, tr, tr))
        g.add("pub fn vx_dyn_%s<T: VxIntoDyn%s>(x: T) -> (r: VxDyn%s) ensures r == x.dynv() { x.vx_dyn_() }" % (tr, tr, tr))
        spec["impls"] = order


def generate(ex, contracts, prop, only=None):
    """prop: property id or 'all'."""
    items = ex["items"]
    g = Gen()
    lost, missing = [], []
    g.add("#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_labels, unused_assignments, unreachable_code, non_camel_case_types, private_interfaces, unused_braces, path_statements, unused_must_use, unreachable_patterns)]")
    g.add("use vstd::prelude::*;\nuse vstd::seq_lib::*;\nuse std::rc::Rc;\nuse core::cmp::Ordering;\nverus! {\npub mod shim { use super::*;")
    for f in sorted(glob.glob(os.path.join(VERIF, "shim/*.rs"))):
        g.add("// ---- " + f, None, "shim")
        g.add(open(f).read(), None, "shim")
    g.add("} // mod shim\nuse shim::*;\nbroadcast use {shim::vx_ax, glue::vx_glue_ax};", None, "shim")
    g.add("// ---- extracted types", None, "types")
    skip = set(ex["cfg"].get("skip_types", []))
    # the program around the library takes part only where a contract of the property is about it
    binp = prop == "all" or any(k.startswith("bin::") and prop in c.props for k, c in contracts.items())
    inc = ex["cfg"].get("bin_types", []) if binp else []
    for k, it in items.items():
        if it["kind"] in ("struct", "enum", "const"):
            if k in skip or (k.startswith("bin::") and k not in inc):
                continue
            if it["kind"] != "const" and "Copy" in it.get("derives", []):
                g.add("#[derive(Clone, Copy)]", k, "type")
            g.add(re.sub(r"&(?! *')", "&'static ", it["text"]) if it["kind"] == "const" else it["text"], k, "type")
            m = re.search(r"pub (?:struct|enum) (\w+)\s*(<[^>{(]*>)?", it["text"])
            if m and it["kind"] != "const":
                ga = m.group(2) or ""
                names = "<" + ", ".join(x.split(":")[0].strip() for x in ga[1:-1].split(",") if x.strip()) + ">" if ga else ""
                g.add("#[verifier::external] impl%s std::fmt::Debug for %s%s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }" % (ga, m.group(1), names), k, "type")
            if k.startswith("bin::") and it["kind"] == "struct" and "Default" in it.get("derives", []):
                fs = re.findall(r"pub (\w+)\s*:", it["text"])
                g.add("impl VxDefault for %s { open spec fn dflt(&self) -> bool { %s } fn vx_default() -> (r: Self) { %s { %s } } }\nimpl %s { pub fn default() -> (r: Self) ensures r.dflt() { VxDefault::vx_default() } }"
                      % (m.group(1), " && ".join("self.%s.dflt()" % f for f in fs) or "true", m.group(1), ", ".join("%s: VxDefault::vx_default()" % f for f in fs), m.group(1)), k, "type")
    g.add("// ---- generated dispatch", None, "dyn")
    dispatch(ex, g)
    g.add("// ---- specification", None, "spec")
    for f in sorted(glob.glob(os.path.join(VERIF, "spec/*.rs"))):
        if os.path.basename(f) >= "5" and not binp:
            continue
        t = open(f).read()
        t = gen_templates(t, ex)
        g.add("// ---- " + f, None, "spec")
        g.add(t, None, "spec")
    g.add("// ---- functions", None, "fns")
    bodied = []
    expanded = {}
    for k, c in contracts.items():
        if "*" in k:
            for kk, it in items.items():
                if it["kind"] == "fn" and fnmatch.fnmatchcase(kk, k) and kk not in contracts:
                    expanded[kk] = c
        else:
            expanded[k] = c
    for k, c in expanded.items():
        if k.startswith("bin::") and not binp:
            continue
        it = items.get(k)
        if it is None or it["kind"] != "fn":
            missing.append(k)
            continue
        wb = (prop == "all" or prop in c.props) and not c.trusted
        if only is not None:
            wb = wb and any(o in k for o in only)
        if wb:
            bodied.append(k)
        emit_fn(g, it, c, wb, lambda s: s, lost)
    g.add("fn main() {}\n} // verus!")
    return g, bodied, lost, missing


def builtin_types(ex):
    """the type names of the built-in parsers, in the order of define_functions!"""
    out = []
    for b in ex["builtins"]:
        u = ex["uses"].get("core::" + b, b)
        mod = "core::" + "::".join(b.split("::")[:-1])
        full = mod + "::" + u.replace("r#", "")
        out.append(ex["cfg"]["type_rename"].get(full, full.split("::")[-1]))
    return out


def gen_templates(t, ex):
    """`//%each TRAIT` ... `//%end` in spec files: repeated for every implementation of the trait; $T is the type.
    `//%each TRAIT:METHOD`: only the implementations which define METHOD themselves."""
    def rep(m):
        tr, _, meth = m.group(1).partition(":")
        for s in ex["cfg"]["dyn"]:
            if s["trait"] == tr:
                tys = s["impls"]
                if meth:
                    tys = [ty for ty in tys if any(it["kind"] == "fn" and it.get("trait") == tr and it["name"] == meth
                           and it["impl"] and re.match(r"impl\s+(\w+)", it["impl"]).group(1) == ty for it in ex["items"].values())]
                return "\n".join(m.group(2).replace("$T", ty) for ty in tys)
        raise KeyError(m.group(1))
    t = re.sub(r"//%each ([\w:]+)\n(.*?)//%end", rep, t, flags=re.S)
    bt = builtin_types(ex)
    t = t.replace("//%builtins", ",\n".join("Box::new(vx_dyn_FunctionParser(%s))" % b for b in bt))
    t = t.replace("//%builtin_hints", "\n".join("assert(*r@[%d] == VxDynFunctionParser::%s(%s));" % (i, b, b) for i, b in enumerate(bt)))
    return t


# ------------------------------------------------------------------ verus

def run_verus(path, extra=(), timeout=800):
    t0 = time.time()
    try:
        r = sh(["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "12",
                *extra, "--", "--error-format=json"], timeout=timeout, env=env(), cwd=os.path.dirname(path))
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return {"timeout": True, "json": {}, "diags": [], "secs": time.time() - t0, "stderr": ""}
    try:
        j = json.loads(out)
    except ValueError:
        j = {}
    diags = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return {"timeout": False, "json": j, "diags": diags, "secs": time.time() - t0, "stderr": err}


def errors_of(res, g):
    """-> list of {msg, fn, kind, tags, line, rendered}"""
    out = []
    for d in res["diags"]:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        spans = d.get("spans", [])
        fn, kind, tags, line, clause = None, None, [], None, None
        prim = [s for s in spans if s.get("is_primary")]
        for s in prim + [s for s in spans if not s.get("is_primary")]:
            l = s["line_start"] - 1
            if 0 <= l < len(g.map) and g.map[l][0] and fn is None:
                fn, kind, _ = g.map[l]
                line = l
        for s in spans:
            if not s.get("is_primary") or "postcondition" not in d["message"]:
                pass
            for l in range(s["line_start"] - 1, s["line_end"]):
                if 0 <= l < len(g.map) and g.map[l][2] and (s.get("label") or "").startswith("failed this") :
                    tags = g.map[l][2]
            if (s.get("label") or "").startswith(("failed this", "failed pre")):
                clause = " ".join(x["text"].strip() for x in s.get("text", []))[:300]
        if not tags and prim:
            for l in range(prim[0]["line_start"] - 1, prim[0]["line_end"]):
                if 0 <= l < len(g.map) and g.map[l][2] and g.map[l][1] == "ann":
                    tags = g.map[l][2]
        out.append({"msg": d["message"], "fn": fn, "kind": kind, "tags": tags, "line": line, "clause": clause,
                    "code": (d.get("code") or {}).get("code") if d.get("code") else None, "rendered": d.get("rendered", "")})
    return out


def cmd_gen(prop, path, only=None):
    ex, cfg = extract()
    ex["cfg"] = cfg
    cs = load_contracts()
    g, bodied, lost, missing = generate(ex, cs, prop, only)
    open(path, "w").write("\n".join(g.lines) + "\n")
    return ex, cs, g, bodied, lost, missing


def main():
    a = sys.argv[1:]
    if a[0] == "fn":
        ex, cfg = extract()
        for k, it in ex["items"].items():
            if a[1] in k and it["kind"] == "fn":
                print("//", k, it["file"], it["line"], "calls", it["calls"])
                print(it["impl"] or "", "fn", it["name"], it["generics"], "(", ", ".join(it["params"]), ") ->", it["ret"])
                print(it["body"])
        return
    if a[0] == "dev":      # vx.py dev PROP|all [substr...]
        path = os.path.join(OUT, "dev.rs")
        ex, cs, g, bodied, lost, missing = cmd_gen(a[1], path, a[2:] or None)
        if missing: print("MISSING", missing)
        if lost: print("LOST", lost)
        res = run_verus(path)
        for e in errors_of(res, g):
            print(e["rendered"])
        v = res["json"].get("verification-results", {})
        print(v, "%.1fs" % res["secs"], "bodies:", len(bodied))
        if not v:
            print(res["stderr"][-3000:] if not res["diags"] else "")
        slow = []
        for m in res["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m["function-breakdown"]:
                slow.append((f["time-micros"] / 1e6, f["function"], f["success"]))
        for s in sorted(slow, reverse=True)[:6]:
            print("   %.2fs %s %s" % s)
        return
    if a[0] == "gen":
        print(cmd_gen(a[1], a[2])[3:])
        return
    from check import check
    sys.exit(check(a[1:]))


if __name__ == "__main__":
    main()
