"""Bounded part of the checks which are about the program rather than the library (C23, C24, C25,
C26, C29, C30, C31, C32): random projects are built by the real `stuart` program, as an unprivileged user in
a scratch directory, and what it leaves behind is compared with what the property prescribes.
Not counted as proved; it is what turns a failed obligation into a failing input."""
import base64, hashlib, json, os, random, re, shutil, socket, struct, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
import vx

TARGET = os.path.join(VERIF, "harness/target-bin")
BIN = os.path.join(TARGET, "debug/stuart")
NOBODY = 65534


def build():
    r = vx.sh(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", "/repo/Cargo.toml", "-p", "stuart", "--all-features", "--target-dir", TARGET],
              env=dict(vx.env(), CARGO_INCREMENTAL="0", RUSTFLAGS=""))
    return r.returncode == 0, r.stderr[-3000:]


# ------------------------------------------------------------------ scratch projects

class Box:
    """a scratch directory with a copy of the program, and an unprivileged user to run it as"""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="stuart-box-", dir="/tmp")
        os.chmod(self.root, 0o755)
        self.bin = os.path.join(self.root, "stuart")
        try:
            os.link(BIN, self.bin)
        except OSError:
            shutil.copy(BIN, self.bin)
        self.n = 0
        self.lock = threading.Lock()
        self.user = NOBODY if os.getuid() == 0 else None

    def dir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.root, "p%d" % self.n)
        os.mkdir(d)
        return d

    def own(self, d):
        if self.user is None:
            return
        os.chown(d, self.user, self.user)
        for b, ds, fs in os.walk(d):
            for x in ds + fs:
                os.lchown(os.path.join(b, x), self.user, self.user)

    def popen(self, args, cwd, env=None, **kw):
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": cwd, "TZ": "UTC", "GIT_TERMINAL_PROMPT": "0", "RUST_BACKTRACE": "0"}
        full = {os.fsencode(k): os.fsencode(v) for k, v in e.items()}
        for k, v in (env or {}).items():
            full[k if isinstance(k, bytes) else k.encode("utf-8", "surrogateescape")] = v if isinstance(v, bytes) else v.encode("utf-8", "surrogateescape")
        if self.user is not None:
            kw.update(user=self.user, group=self.user, extra_groups=[])
        return subprocess.Popen([self.bin, *args], cwd=cwd, env=full, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

    def run(self, args, cwd, env=None, timeout=60):
        p = self.popen(args, cwd, env)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            return 124, o, e
        return p.returncode, o, e

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def enc(b):
    if isinstance(b, str):
        b = b.encode()
    try:
        return b.decode()
    except UnicodeDecodeError:
        return {"b64": base64.b64encode(b).decode()}


def dec(v):
    return base64.b64decode(v["b64"]) if isinstance(v, dict) else v.encode()


def lay(d, files):
    for p, v in files.items():
        f = os.path.join(d, p)
        if p.endswith("/"):
            os.makedirs(f, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as o:
            o.write(dec(v))


def snap(d, sub=""):
    """every file and directory below, with contents"""
    out = {}
    base = os.path.join(d, sub)
    if os.path.isfile(base):
        return {"": open(base, "rb").read()}
    for b, ds, fs in os.walk(base):
        for x in fs:
            p = os.path.join(b, x)
            try:
                out[os.path.relpath(p, base)] = open(p, "rb").read()
            except OSError as e:
                out[os.path.relpath(p, base)] = b"?unreadable"
        for x in ds:
            out[os.path.relpath(os.path.join(b, x), base) + "/"] = b""
    return out


def toml_str(s):
    return json.dumps(s, ensure_ascii=True).replace("\\ud", "\\ud") if all(ord(c) < 0x10000 and not 0xd800 <= ord(c) < 0xe000 for c in s) else "'" + s + "'"


def manifest(name="x", author=None, settings=None, deps=None):
    s = "[site]\nname = %s\n" % toml_str(name)
    if author is not None:
        s += "author = %s\n" % toml_str(author)
    if settings is not None:
        s += "\n[settings]\n" + "".join("%s = %s\n" % (k, "true" if v else "false") for k, v in settings)
    if deps is not None:
        s += "\n[dependencies]\n" + "".join("%s = %s\n" % (k, toml_str(v)) for k, v in deps)
    return s


ROOT = "<html>{{ insert(\"main\") }}</html>"


def page(body):
    return "{{ begin(\"main\") }}" + body + "{{ end(\"main\") }}"


def page_out(body):
    return "<html>" + body + "</html>"


def crashed(rc, err):
    if rc == 124:
        return "the program does not stop"
    if rc < 0:
        return "the program died with signal %d" % -rc
    if rc not in (0, 1) or b"panicked at" in err:
        return "the program crashed (exit code %d): %s" % (rc, err[-300:].decode("utf-8", "replace"))
    return None


WORDS = ["a", "b", "site", "My Site", "x y", "caf\u00e9", "\u65e5\u672c", "quote\"d", "back\\slash", "tab\there", "", " lead", "trail ", "0", "true", "{{ x }}", "<b>", "line1\nline2", "'"]


# ------------------------------------------------------------------ C23

def gen_c23(r):
    fields = ["strip_extensions", "save_data_files", "save_metadata"]
    r.shuffle(fields)
    settings = None
    if r.random() < 0.9:
        settings = [[f, r.random() < 0.5] for f in fields if r.random() < 0.6]
    return {"name": r.choice(WORDS), "author": r.choice(WORDS) if r.random() < 0.6 else None, "settings": settings, "dev": False}


def run_c23(c, box):
    d = box.dir()
    lay(d, {"stuart.toml": manifest(c["name"], c["author"], c["settings"]), "content/root.html": ROOT, "content/index.html": page("i"),
            "content/about.html": page("a"), "content/sub/post.html": page("p"), "content/data.json": "{\"k\": 1}", "content/sub/list.json": "[1, 2]"})
    box.own(d)
    rc, o, e = box.run(["build"], d)
    f = crashed(rc, e)
    if f:
        return f
    if rc != 0:
        return "a project with these settings is refused: " + e.decode("utf-8", "replace")[-300:]
    s = dict(c["settings"] or [])
    strip, data, meta = s.get("strip_extensions", True), s.get("save_data_files", False), s.get("save_metadata", False)
    want = {"index.html": page_out("i"), "sub/": ""}
    if strip:
        want.update({"about/": "", "about/index.html": page_out("a"), "sub/post/": "", "sub/post/index.html": page_out("p")})
    else:
        want.update({"about.html": page_out("a"), "sub/post.html": page_out("p")})
    if data:
        want.update({"data.json": None, "sub/list.json": None})
    got = snap(d, "dist")
    if set(got) != set(want):
        return "output with strip_extensions %s, save_data_files %s: %s, expected %s" % (strip, data, sorted(got), sorted(want))
    for k, v in want.items():
        if v is not None and got[k] != v.encode():
            return "output file %s holds %r" % (k, got[k][:200])
    mp = os.path.join(d, "metadata.json")
    if os.path.exists(mp) != meta:
        return "metadata is %s although save_metadata is %s" % ("written" if not meta else "not written", meta)
    if meta:
        m = json.load(open(mp))
        if m.get("name") != c["name"] or m.get("author", None) != c["author"]:
            return "metadata gives the name %r and the author %r for %r and %r" % (m.get("name"), m.get("author"), c["name"], c["author"])
    if ("Building" in o.decode("utf-8", "replace")) and c["name"] not in o.decode("utf-8", "replace"):
        return "the site name %r is reported differently: %r" % (c["name"], o[-300:])
    return None


def key_c23(c):
    return json.dumps([c["settings"] and sorted(c["settings"]), c["name"], c["author"]])


# ------------------------------------------------------------------ C24

FAULTS = ["none", "none", "pre1", "pre2", "prenoexec", "parse", "process", "process2", "md", "json", "static_conflict", "temp_conflict", "static_unreadable",
          "temp_unreadable", "post", "save_conflict", "save_blocked", "metadata_blocked", "noroot"]


def gen_c24(r):
    f = r.choice(FAULTS)
    return {"fault": f, "first": r.random() < 0.2, "meta": r.random() < 0.6, "strip": r.random() < 0.5, "static": r.random() < 0.7 or f.startswith("static"),
            "temp": r.random() < 0.6 or f.startswith("temp"), "prebuilt_temp": r.random() < 0.3, "deep": r.randrange(3), "order": r.randrange(2),
            "out": r.choice(["dist", "dist", "dist", "out", "deep/er/out"]), "old_extra": r.random() < 0.5, "second_pre": r.random() < 0.5,
            "how": r.choice(["exit 3", "exit 1", "exit 255", "kill -9 $$", "kill -TERM $$", "kill -ABRT $$", "false", "exit 128", "exit 2 | exit 4", "nosuch_command_xyz", "set -e; false; true"])}


def run_c24(c, box):
    d = box.dir()
    meta, strip, fault, out = c["meta"], c["strip"], c["fault"], c["out"]
    sub = "/".join("s%d" % i for i in range(c["deep"]))
    sub = sub + "/" if sub else ""
    settings = [["strip_extensions", strip], ["save_metadata", meta]]
    files = {"stuart.toml": manifest("x", None, settings), "content/root.html": ROOT, "content/index.html": page("new"), "content/a.html": page("A"), "content/%sz.html" % sub: page("Z")}
    bad = ("content/%sb.html" if c["order"] else "content/%szz.html") % sub
    if fault == "parse":
        files[bad] = page("{{ import( }}")
    elif fault == "process":
        files[bad] = page("{{ $nothing.here }}")
    elif fault == "process2":
        files[bad] = page("{{ for($x, \"nosuch\") }}{{ end(for) }}")
    elif fault == "md":
        files["content/%sm.md" % sub] = "# no root for this\n"
    elif fault == "json":
        files["content/%sm.json" % sub] = "{ not json"
    elif fault == "noroot":
        del files["content/root.html"]
    log = os.path.join(d, "log.txt")
    files["deep/er/"] = ""
    look = "{ echo %s; cat '%s/index.html' 2>/dev/null || echo none; echo; cat metadata.json 2>/dev/null | cksum; } >> log.txt\n"
    pre = look % ("pre", out)
    if c["temp"]:
        pre += "mkdir -p temp\nprintf gen > temp/gen.txt\n"
        if fault == "temp_conflict":
            pre += "printf other > temp/a.html\n"
        if fault == "temp_unreadable":
            pre += "printf other > temp/secret.txt\nchmod 000 temp/secret.txt\n"
    if fault == "pre1":
        pre += c["how"] + "\n"
    files["scripts/onPreBuild.sh"] = pre
    if c["second_pre"] or fault == "pre2":
        files["scripts/onPreBuild"] = "echo second >> log2.txt\n" + (c["how"] + "\n" if fault == "pre2" else "")
    if fault == "prenoexec":
        files["scripts/onPreBuild"] = "no_such_command_at_all_xyz\n"
    files["scripts/onPostBuild.sh"] = look % ("post", out) + (c["how"] + "\n" if fault == "post" else "")
    if c["static"]:
        files["static/s.txt"] = "static"
        files["static/%sdeep.css" % sub] = "css"
    if fault == "static_conflict":
        files["static/a.html"] = "conflict"
    if fault == "static_unreadable":
        files["static/%ssecret.bin" % sub] = "secret"
    if fault == "save_conflict":
        # only with stripping: the page s.html and the directory s/ with an index.html
        files["content/s.html"] = page("one")
        files["content/s/index.html"] = page("two")
    if c["prebuilt_temp"]:
        files["temp/before.txt"] = "before"
    old = {}
    if not c["first"]:
        old = {"index.html": "<old>", "old/page.html": "old page"}
        if c["old_extra"]:
            old["sub/x.bin"] = {"b64": base64.b64encode(bytes(range(256))).decode()}
        for k, v in old.items():
            files[out + "/" + k] = v
        files["metadata.json"] = "{\"old\": true}"
    if fault == "metadata_blocked" and meta:
        files.pop("metadata.json", None)
        files["metadata.json/keep.txt"] = "x"
    if fault == "save_blocked":
        for k in list(files):
            if k.startswith(out + "/"):
                del files[k]
        files[out] = "a file, not a directory"
    lay(d, files)
    if fault == "static_unreadable":
        if os.getuid() != 0:
            pass
        os.chmod(os.path.join(d, "static/%ssecret.bin" % sub), 0o000)
    box.own(d)
    before, before_meta = snap(d, out), snap(d, "metadata.json")
    rc, o, e = box.run(["build", "-o", out], d)
    f = crashed(rc, e)
    if f:
        return f
    after, after_meta = snap(d, out), snap(d, "metadata.json")
    events = open(log, errors="replace").read() if os.path.exists(log) else ""
    post_ran = events.count("post\n")
    early = ["pre1", "pre2", "prenoexec", "parse", "process", "process2", "md", "json", "noroot", "static_unreadable", "temp_unreadable", "static_conflict", "temp_conflict"]
    fails = fault in early
    if fault == "temp_conflict" and not c["temp"] or fault == "temp_unreadable" and not c["temp"]:
        fails = False
    if fault in early and fails:
        if rc == 0:
            return "the build reports success although %s" % fault
        if after != before:
            return "the build failed (%s) and the previous output changed: %s" % (fault, diff(before, after))
        if after_meta != before_meta:
            return "the build failed (%s) and the exported metadata changed: %r" % (fault, after_meta)
        if post_ran:
            return "the build failed (%s) and the post-build script ran" % fault
        return None
    if fault in ("save_blocked", "metadata_blocked", "save_conflict"):
        really = {"save_blocked": True, "metadata_blocked": meta, "save_conflict": strip}[fault]
        if really:
            if rc == 0:
                return "the build reports success although %s" % fault
            if post_ran:
                return "the output or the metadata could not be written (%s) and the post-build script ran" % fault
            return None
    if fault == "post":
        if rc == 0:
            return "the post-build script fails and the build reports success"
    elif rc != 0:
        return "the build fails although nothing is wrong (%s): %s" % (fault, e.decode("utf-8", "replace")[-300:])
    if post_ran != 1:
        return "the post-build script ran %d times" % post_ran
    # the pre-build script saw the old output, the post-build script the new one
    parts = events.split("post\n")
    want_old = "pre\n" + ("<old>" if "index.html" in before else "none\n")
    if not parts[0].startswith(want_old):
        return "the pre-build script did not see the previous output: %r" % parts[0]
    if not parts[1].startswith(page_out("new")):
        return "the post-build script did not see the new output: %r" % parts[1]
    if meta:
        if "metadata.json" not in os.listdir(d) or "old" in json.load(open(os.path.join(d, "metadata.json"))):
            return "the metadata was not written"
        ck = subprocess.run(["cksum"], input=open(os.path.join(d, "metadata.json"), "rb").read(), stdout=subprocess.PIPE).stdout.decode()
        if ck.strip() not in parts[1]:
            return "the post-build script ran before the metadata was written"
    elif after_meta != before_meta:
        return "the metadata changed although exporting it is off"

    def name(p):
        if strip and p.endswith(".html") and not p.endswith("index.html"):
            return p[:-5] + "/index.html"
        return p
    want = {"index.html": page_out("new"), name("a.html"): page_out("A"), name(sub + "z.html"): page_out("Z")}
    if fault == "save_conflict":
        want["s.html"], want["s/index.html"] = page_out("one"), page_out("two")
    if fault == "metadata_blocked" or fault == "none" or fault == "post" or True:
        if c["static"]:
            want["s.txt"], want[sub + "deep.css"] = "static", "css"
        if c["temp"]:
            want["gen.txt"] = "gen"
        if c["prebuilt_temp"]:
            want["before.txt"] = "before"
    got = {k: v for k, v in after.items() if not k.endswith("/")}
    if got != {k: v.encode() for k, v in want.items()}:
        return "the output is not what was built: " + diff({k: v.encode() for k, v in want.items()}, got)
    return None


def diff(a, b):
    gone = sorted(set(a) - set(b))
    new = sorted(set(b) - set(a))
    ch = sorted(k for k in a if k in b and a[k] != b[k])
    return "missing %s, added %s, changed %s" % (gone[:5], new[:5], ch[:5])


# ------------------------------------------------------------------ C25

GOODP = {"js": "%s.js", "mjs": "%s.mjs", "abs": "%s.js", "subdir": "deep/er/%s.js", "dlldir": "x.dll.d/%s.js", "sojs": "%s.so.js", "dlljs": ".dll/%s.dll.mjs", "gitdir": "a.git/%s.js", "odd": "ü é/%s.js"}
BADK = ["missing", "syntax", "throws", "nofns", "badso", "libc", "empty", "dir", "dll", "dll_js", "dll_dir", "badcargo", "spaces", "nonum"]


def gen_c25(r):
    plugins = []
    for i in range(r.choice([1, 1, 1, 2, 3])):
        ks = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            ks.append(r.choice(["js", "mjs", "abs", "subdir", "js", "js", "dlldir", "sojs", "dlljs", "gitdir", "odd"]) if r.random() < 0.45 else r.choice(BADK))
        plugins.append(ks)
    return {"plugins": plugins, "probe": r.choice(["first", "later", "none"]), "pick": r.randrange(100), "absent": r.random() < 0.05}


def run_c25(c, box):
    d = box.dir()
    files = {"content/root.html": ROOT, "dist/old.txt": "old"}
    deps = []
    calls = []          # calls of the functions of the source which must have been loaded
    later = []          # functions of sources which must not have been loaded
    fails = False
    for pi, kinds in enumerate(c["plugins"]):
        srcs, done = [], False
        for si, k in enumerate(kinds):
            tag = "p%ds%d" % (pi, si)
            code = "export default { name: \"g%d\", version: \"1\", functions: [ { name: \"f%d\", fn: () => \"%s\" }, { name: \"only_%s\", fn: () => \"%s\" } ] };" % (pi, pi, tag, tag, tag)
            good = False
            if k in GOODP:
                good = True
                p = GOODP[k] % tag
                files[p] = code
                src = os.path.join(d, p) if k == "abs" else p
            elif k == "missing":
                src = "nowhere/%s.js" % tag
            elif k == "syntax":
                src = tag + ".js"; files[src] = code + " ]]] {"
            elif k == "throws":
                src = tag + ".js"; files[src] = "throw new Error(\"no\");\n" + code
            elif k == "nofns":
                src = tag + ".js"; files[src] = code.replace("functions:", "fnctions:")
            elif k == "nonum":
                src = tag + ".js"; files[src] = "export default { name: \"g%d\", version: \"1\", functions: { length: Symbol() } };" % pi
            elif k == "badso":
                src = tag + ".so"; files[src] = "not a library"
            elif k == "libc":
                src = tag + ".so"; files[src] = "\x7fELF"
            elif k == "empty":
                src = ""
            elif k == "dir":
                src = tag + "_dir"; files[src + "/"] = ""
            elif k == "dll":
                src = tag + ".dll"; files[src] = "MZ"
            elif k == "dll_js":
                src = tag + ".js.dll"; files[src] = code
            elif k == "dll_dir":
                src = "none/" + tag + ".dll"
            elif k == "badcargo":
                src = tag + "_proj"; files[src + "/Cargo.toml"] = "this is not toml ["
            else:
                src = "  " + tag + " .js"
            srcs.append(src)
            if good and not done:
                done = True
                calls.append(("f%d" % pi, "only_" + tag, "g%d::f%d" % (pi, pi), tag))
            elif good:
                later.append("only_" + tag)
        if not done:
            fails = True
        deps.append(["g%d" % pi, ";".join(srcs)])
    files["stuart.toml"] = manifest("x", None, None, None if c["absent"] else deps)
    body, want = "", ""
    for f, only, full, tag in calls:
        body += "[{{ %s() }}|{{ %s() }}|{{ %s() }}]" % (f, only, full)
        want += "[%s|%s|%s]" % (tag, tag, tag)
    expect_call_error = False
    if c["probe"] == "none" or c["absent"]:
        body, want = "plain", "plain"
    elif c["probe"] == "later" and later:
        body += "{{ %s() }}" % later[c["pick"] % len(later)]
        expect_call_error = True
    files["content/index.html"] = page(body)
    lay(d, files)
    if not os.access("/usr/bin/cargo", os.X_OK):
        pass
    box.own(d)
    rc, o, e = box.run(["build"], d)
    f = crashed(rc, e)
    if f:
        return f
    got = open(os.path.join(d, "dist/index.html")).read() if os.path.exists(os.path.join(d, "dist/index.html")) else None
    if fails and not c["absent"]:
        if rc == 0:
            return "no source of one plugin loads and the build goes on"
        if got is not None:
            return "no source of one plugin loads and output was written"
        return None
    if expect_call_error:
        if rc == 0:
            return "a source after the first that loads was loaded: %r" % got
        return None
    if rc != 0:
        return "every plugin has a source that loads and the build fails: " + e.decode("utf-8", "replace")[-400:]
    if got != page_out(want):
        return "the functions come from another source: %r, expected %r" % (got, page_out(want))
    return None


# ------------------------------------------------------------------ C26

BITS = [b"</body>", b"</body>", b"</body", b"</BODY>", b"</body >", b"<body>", b"</bod", b"y>", b"<", b"</", b"</html>", b"\x00", b"\xff\xfe", b"\r\n", b"text", "\u00e9\u65e5".encode(), b"<script>", b"</script>", b"</head>", b"</b</body>"]


def gen_c26(r):
    files = {}
    for i in range(60):
        n = r.choice([0, 1, 1, 2, 3, 5, 8])
        b = b"".join(r.choice(BITS) for _ in range(n))
        if r.random() < 0.1:
            b = b"x" * r.choice([1, 6, 7, 8, 1000, 70000]) + b
        if r.random() < 0.05:
            b = bytes(r.randrange(256) for _ in range(r.choice([1, 100, 5000])))
        files["f%d%s" % (i, r.choice([".html", ".html", ".txt", ".bin", "", ".js", ".css", ".png"]))] = enc(b)
    for i in range(6):
        files["dir%d/index.html" % i] = enc(b"".join(r.choice(BITS) for _ in range(3)))
    return {"files": files, "from": r.choice(["here", "above", "above"]), "out": r.choice(["dist", "dist", "dist/deep", "../away", "@/away"])}


def http(path, method="GET"):
    s = socket.create_connection(("127.0.0.1", 6904), timeout=20)
    s.sendall(("%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n" % (method, path)).encode())
    data = b""
    head = None
    while True:
        if head is None and b"\r\n\r\n" in data:
            head, data = data.split(b"\r\n\r\n", 1)
        if head is not None:
            m = re.search(rb"(?i)content-length: *(\d+)", head)
            if m and len(data) >= int(m.group(1)):
                data = data[:int(m.group(1))]
                break
        x = s.recv(65536)
        if not x:
            if head is None and b"\r\n\r\n" in data:
                head, data = data.split(b"\r\n\r\n", 1)
            break
        data += x
    s.close()
    return (head or b"").split(b"\r\n")[0], data


def port_free():
    for _ in range(100):
        try:
            socket.create_connection(("127.0.0.1", 6904), timeout=1).close()
        except OSError:
            return True
        time.sleep(0.2)
    return False


def wait_port(p):
    for _ in range(200):
        try:
            socket.create_connection(("127.0.0.1", 6904), timeout=1).close()
            return True
        except OSError:
            if p.poll() is not None:
                return False
            time.sleep(0.1)
    return False


def run_c26(c, box):
    top = box.dir()
    d = os.path.join(top, "project")
    os.mkdir(d)
    lay(d, {"stuart.toml": manifest(), "content/root.html": ROOT, "content/index.html": page("<body>hello</body>")})
    # the folder the server is started in has files of the same names
    for x in ("dist", "dist/deep"):
        lay(os.path.join(top, x), {"index.html": "decoy", "f0.html": "decoy", "f1.txt": "decoy"})
    if c["out"] == "dist/deep":
        os.makedirs(os.path.join(d, "dist"))
    box.own(top)
    out = os.path.normpath(os.path.join(d, c["out"].replace("@", top)))
    args = [] if c["out"] == "dist" else ["-o", c["out"].replace("@", top)]
    if not port_free():
        return "SKIP"
    p = box.popen(["-q", "dev", *args], d) if c["from"] == "here" else box.popen(["-q", "dev", "--manifest-path", "project/stuart.toml", *args], top)
    try:
        if not wait_port(p):
            return "SKIP"
        for _ in range(100):
            if os.path.exists(os.path.join(out, "index.html")):
                break
            time.sleep(0.1)
        lay(out, c["files"])
        box.own(out)                            # the watcher ignores what happens there
        # a link to a file whose name is not Unicode
        odd = os.path.join(os.fsencode(out), b"o.\xff")
        with open(odd, "wb") as o:
            o.write(b"odd")
        os.chmod(odd, 0o644)
        os.symlink(b"o.\xff", os.path.join(os.fsencode(out), b"link.txt"))
        st, got = http("/link.txt")
        if got != b"odd":
            return "a link to a file whose name is not Unicode is answered with %r %r" % (st, got)
        st, ref = http("/")
        plain = page_out("<body>hello</body>").encode()
        at = plain.find(b"</body>")
        if not ref.startswith(plain[:at]) or not ref.endswith(plain[at:]) or len(ref) < len(plain):
            return "the page %r is served as %r" % (plain, ref[:300])
        script = ref[at:len(ref) - len(plain) + at]
        if not script.startswith(b"<script>") or not script.endswith(b"</script>") or b"WebSocket" not in script:
            return "the reload script element is %r" % script[:200]
        for f, v in c["files"].items():
            b = dec(v)
            i = b.find(b"</body>")
            want = b if i < 0 else b[:i] + script + b[i:]
            uris = ["/" + f] if not f.endswith("index.html") else ["/" + f, "/" + f[:-10]]
            for u in uris:
                st, got = http(u)
                if b" 200 " not in st + b" ":
                    return "the file %s is answered with %r" % (u, st)
                if got != want:
                    return "the file %s with the content %r is served as %r" % (u, b[:300], got[:600])
        for u in ["/nowhere.html", "/dir0/none", "/f0.nope"]:
            st, got = http(u)
            if b" 404 " not in st + b" ":
                return "the missing file %s is answered with %r" % (u, st)
        return None
    finally:
        p.kill()
        p.communicate()


# ------------------------------------------------------------------ C29

BADBODY = ["{{ import( }}", "{{ $nothing }}", "{{ $x.y }}", "{{ nosuch() }}", "{{ end() }}", "{{ else() }}", "{{ for($x, \"no.json\") }}{{ end(for) }}", "{{ begin(\"x\") }}",
           "{{ insert(\"nothing\") }}", "{{ import($x, \"d.json\") }}{{ for($y, $x) }}{{ $y }}{{ end(for) }}", "{{ dateformat(\"x\", \"%Y\") }}", "{{ dateformat(\"2020-01-01\", \"%Q\") }}",
           "{{ excerpt() }}", "{{ excerpt(\"a\", \"b\") }}", "{{ for(a=1, $x) }}", "{{ $ }}", "{{ f(", "{{", "{{ \"", "{{ ifdefined($x.y.z) }}", "{{ import($x, \"d.json\") }}{{ $x }}", "{{ import($x, \"d.json\") }}{{ import($x, \"d.json\") }}",
           "{{ ifeq(1) }}", "{{ ifeq(1, 2, 3) }}", "{{ 9 }}", "{{ a.b() }}", "\u00e9\u65e5{{ $\u00e9 }}", "{{ timetoread() }}", "{{ for($x, \"d.json\", limit=-1) }}{{ end(for) }}", "{{ for($x, \"d.json\", order=\"asc\") }}{{ end(for) }}", "{{ for(\"d.json\") }}"]


def gen_c29(r):
    k = r.choice(["page", "page", "page", "page", "root", "md", "md2", "json", "noroot", "nomd", "utf8", "manifest", "nomanifest", "plugin", "script", "script2", "sig", "conflict", "nocontent", "gone", "cwd", "noname", "plugdir"])
    return {"kind": k, "from": r.choice(["", "", "", "/", "o"]), "body": r.choice(BADBODY), "before": r.choice(["", "\n" * r.randrange(40), "x" * r.randrange(3000), "\u65e5\n\u00e9 ", "\r\n\r\n", "text\n" * 120]), "strings": [r.choice(WORDS), r.choice(WORDS)],
            "toml": r.choice(["", "[site]", "[site]\nname = 3\n", "[site]\nname = \"x\"\n[settings]\nstrip_extensions = 1\n", "not toml", "[", "[site]\nname = \"x\n", "\u00e9 = 1", "[site]\nname=\"x\"\nname=\"y\"\n", "\n\n\n]", "dependencies = 1\n[site]\nname=\"x\"", "[site\nname = \"x\"", "site = \"\"", "[site]\nname = \"x\"\n[dependencies]\na = 1\n", "[site]\nname = \"x\"\r\n[settings]\r\nsave_metadata = \"\"\r\n"]),
            "md": r.choice(["---\n", "---\na\n---\n", "---\na: b\n", "---\n: \n---\nx", "---\nx: y\n---\n{{ nosuch() }}", "---\r\nbad\r\n---\r\n", "# {{ $none }}", "---\n\u00e9\n---"]),
            "script": r.choice(["exit 1", "exit 255", "kill -9 $$", "printf '\\377\\376'; exit 1", "printf '\\377x' >&2; exit 1", "echo a >&2; printf '\\300' >&2; kill -9 $$", "echo out; echo err >&2; exit 7", "nosuchcommand", "echo; exit 3", "seq 1 3000; exit 1"])}


def run_c29(c, box):
    d = box.dir()
    k = c["kind"]
    files = {"stuart.toml": manifest(), "content/root.html": ROOT, "content/md.html": "{{ $self.content }}", "content/index.html": page("x"), "content/d.json": "{\"a\": 1}"}
    args, env, cwd = ["build"], {}, d
    must = True
    if k == "page":
        files["content/sub/p.html"] = c["before"] + page(c["body"])
        must = None
    elif k == "root":
        files["content/root.html"] = c["before"] + c["body"]
        must = None
    elif k in ("md", "md2"):
        files["content/p.md"] = c["md"] if k == "md" else c["before"] + c["body"]
        must = None
    elif k == "json":
        files["content/x.json"] = c["before"] + "{"
    elif k == "noroot":
        del files["content/root.html"]
    elif k == "nomd":
        del files["content/md.html"]
        files["content/p.md"] = "# x"
    elif k == "utf8":
        files["content/p.html"] = {"b64": base64.b64encode(b"ok\n\xff\xfe{{ x }}").decode()}
        must = None
    elif k == "manifest":
        files["stuart.toml"] = c["toml"]
    elif k == "nomanifest":
        del files["stuart.toml"]
    elif k == "plugin":
        files["stuart.toml"] = manifest(deps=[["g", c["strings"][0] + ";" + c["strings"][1]]])
    elif k == "plugdir":
        files["stuart.toml"] = manifest(deps=[["g", "p.js"]])
        files["p.js"] = "export default { name: \"g\", version: \"1\", functions: [ {name: \"f\", fn: () => { throw new Error(\"boom \u00e9\"); }} ] };"
        must = None
        files["content/p.html"] = c["before"] + page("{{ f() }}")
    elif k == "script":
        files["scripts/onPreBuild.sh"] = c["script"] + "\n"
    elif k == "script2":
        files["scripts/onPostBuild"] = c["script"] + "\n"
    elif k == "sig":
        files["scripts/onPreBuild.sh"] = "kill -%d $$\n" % (9 if len(c["before"]) % 2 else 15)
    elif k == "conflict":
        files["static/index.html"] = "x"
    elif k == "nocontent":
        files = {"stuart.toml": manifest()}
    elif k == "gone":
        # the file with the error can no longer be read when the error is shown
        files["content/p.html"] = c["before"] + page(c["body"])
        files["scripts/onPreBuild.sh"] = "(sleep 0.02; rm -rf content) &\n"
        must = None
    elif k == "cwd":
        files["content/p.html"] = c["before"] + page("{{ $none }}")
        cwd = "/"
        args = ["build", "--manifest-path", os.path.join(d, "stuart.toml")]
    elif k == "noname":
        files["content/" + "\u65e5\u672c \u00e9.html"] = c["before"] + page("{{ $none }}")
    if c.get("from"):
        files["o/"] = ""
        cwd = {"/": "/", "o": os.path.join(d, "o")}[c["from"]]
        args = ["build", "--manifest-path", os.path.join(d, "stuart.toml") if c["from"] == "/" else "../stuart.toml"]
    lay(d, files)
    box.own(d)
    rc, o, e = box.run(args, cwd)
    f = crashed(rc, e)
    if f:
        return f
    text = e.decode("utf-8", "replace")
    if must and rc == 0:
        return "the error (%s) is not reported" % k
    if rc != 0 and "error: " not in re.sub(r"\x1b\[[0-9;]*m", "", text):
        return "the program fails without a message: %r" % text[-300:]
    if rc != 0 and re.sub(r"\x1b\[[0-9;]*m", "", text).strip() == "error:":
        return "the program fails with an empty message"
    return None


# ------------------------------------------------------------------ C30

# files which are not in the directories `dist` and `temp`, nor a manifest, whatever their names look like
ODDFILES = ["template.css", "distance.txt", "dist.txt", "temp.html", "distribution/a.txt", "temporary/x", "content/dist/p.html", "content/temp/p.html", "static/dist/a.txt", "static/temp/a", "scripts/dist", "content/template.html",
            "stuart.toml.bak", "my-stuart.toml", "old.stuart.toml", "content/stuart.html", "README.md", "notes/dist", ".hidden", "static/.x", "metadata.json", "static/notes.tmp", "content/data.json", "plugins/p.js", "DIST/x", "Temp/x", "a b/\u00e9.txt"]


def gen_c30(r):
    phases = []
    alive, nxt = [], 0
    for _ in range(r.choice([2, 3, 4, 5])):
        n = r.choice([0, 1, 1, 2, 3, 5, 8])
        join = list(range(nxt, nxt + n))
        nxt += n
        alive += join
        p = r.choice([0, 0, 0.2, 0.5, 0.9, 1])
        leave = [c for c in alive if r.random() < p]
        alive = [c for c in alive if c not in leave]
        late = []
        if r.random() < 0.3:
            late = [nxt]
            nxt += 1
            alive += late
        phases.append({"join": join, "leave": [[c, r.choice(["reset", "reset", "close", "half"])] for c in leave], "late": late, "good": r.random() < 0.75, "what": r.choice(["page", "page", "root", "static", "new", "sub", "odd", "odd", "odd"])})
    for ph in phases:
        ph["odd"] = r.choice(ODDFILES)
    phases.append({"join": [], "leave": [], "late": [], "good": True, "what": r.choice(["page", "odd"]), "odd": r.choice(ODDFILES)})
    return {"phases": phases}


class Client:
    def __init__(self):
        self.s = socket.create_connection(("127.0.0.1", 6904), timeout=20)
        self.s.sendall(b"GET /__ws HTTP/1.1\r\nHost: localhost:6904\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
        self.data = b""
        while b"\r\n\r\n" not in self.data:
            x = self.s.recv(4096)
            if not x:
                raise OSError("no handshake")
            self.data += x
        head, self.data = self.data.split(b"\r\n\r\n", 1)
        if b" 101 " not in head.split(b"\r\n")[0]:
            raise OSError("no handshake: %r" % head[:100])
        self.s.setblocking(False)
        self.closed = False

    def messages(self):
        while not self.closed:
            try:
                x = self.s.recv(65536)
            except BlockingIOError:
                break
            except OSError:
                self.closed = True
                break
            if not x:
                self.closed = True
            self.data += x
        out, d = [], self.data
        while len(d) >= 2:
            n = d[1] & 127
            at = 2
            if n == 126 and len(d) >= 4:
                n, at = int.from_bytes(d[2:4], "big"), 4
            if len(d) < at + n:
                break
            if d[0] & 15 in (1, 2):
                out.append(d[at:at + n])
            d = d[at + n:]
        return out

    def leave(self, how):
        if how == "reset":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\x00\x00\x00\x00\x00\x00\x00")
        if how == "half":
            self.s.shutdown(socket.SHUT_RDWR)
        self.s.close()


def sockets(pid):
    """how many sockets the server has open, when that may be seen"""
    try:
        return sum(1 for f in os.listdir("/proc/%d/fd" % pid) if os.readlink("/proc/%d/fd/%s" % (pid, f)).startswith("socket:"))
    except OSError:
        return None


def run_c30(c, box):
    d = box.dir()
    logs = box.dir()
    script = "#!/bin/sh\nprintf x >> '%s/%s'\n"
    lay(d, {"stuart.toml": manifest(), "content/root.html": ROOT, "content/index.html": page("0"), "content/sub/a.html": page("0"), "static/s.txt": "0",
            "scripts/onPreBuild.sh": script % (logs, "pre"), "scripts/onPostBuild.sh": script % (logs, "post"),
            **{x.rsplit("/", 1)[0] + "/.keep%d" % i: "" for i, x in enumerate(ODDFILES) if "/" in x}})
    for x in ("onPreBuild.sh", "onPostBuild.sh"):
        os.chmod(os.path.join(d, "scripts", x), 0o755)
    box.own(d)
    box.own(logs)

    def builds(which):
        try:
            return os.path.getsize(os.path.join(logs, which))
        except OSError:
            return 0

    if not port_free():
        return "SKIP"
    p = box.popen(["-q", "dev"], d)
    clients, live, gone = {}, [], 0
    try:
        if not wait_port(p):
            return "SKIP"
        if builds("post") != 1:
            return "SKIP"
        time.sleep(0.3)
        base = sockets(p.pid)
        for k, ph in enumerate(c["phases"]):
            for i in ph["join"]:
                clients[i] = Client()
                live.append(i)
            time.sleep(0.4)
            for i, how in ph["leave"]:
                clients[i].leave(how)
                live.remove(i)
                gone += 1
            time.sleep(0.2)
            before = {i: len(clients[i].messages()) for i in live}
            pre, post = builds("pre"), builds("post")
            bad = "{{ nosuch() }}"
            body = str(k) if ph["good"] else bad
            f = {"page": "content/index.html", "root": "content/root.html", "static": "static/s.txt" if ph["good"] else "content/index.html", "new": "content/n.html", "sub": "content/sub/a.html", "odd": ph.get("odd") if ph["good"] else "content/index.html"}[ph["what"]]
            text = (ROOT + body) if f == "content/root.html" else body if f == "static/s.txt" else "{}" if f.endswith(".json") else page(body)
            # moved into place, so that the change is one event; a bad file of an earlier phase is mended first of all
            stage = os.path.join(logs, "stage")
            for g in ("content/index.html", "content/root.html", "content/n.html", "content/sub/a.html"):
                if g != f and os.path.exists(os.path.join(d, g)) and bad.encode() in open(os.path.join(d, g), "rb").read():
                    lay(logs, {"stage": ROOT if g == "content/root.html" else page("0")})
                    os.chmod(stage, 0o644)
                    os.replace(stage, os.path.join(d, g))
            lay(logs, {"stage": text})
            os.chmod(stage, 0o644)
            os.replace(stage, os.path.join(d, f))
            for i in ph["late"]:
                clients[i] = Client()
            end = time.time() + 10
            quiet, again = None, False
            while time.time() < end:
                time.sleep(0.02)
                if p.poll() is not None:
                    return "the development server stopped in phase %d (exit code %s) after a client left: %s" % (k, p.returncode, p.stderr.read()[-300:].decode("utf-8", "replace"))
                if not again and time.time() > end - 6 and builds("pre") == pre:
                    again = True
                    lay(logs, {"stage": text})
                    os.chmod(stage, 0o644)
                    os.replace(stage, os.path.join(d, f))
                now = builds("pre"), builds("post"), [len(clients[i].messages()) for i in live]
                if now != quiet:
                    quiet, since = now, time.time()
                elif now[0] > pre and time.time() - since > (0.5 if all(m - before[i] == now[1] - post for m, i in zip(now[2], live)) else 3):
                    break
            built = builds("post") - post
            if builds("pre") == pre:
                return "in phase %d the site is not built again after a change to %s" % (k, f) if again else "SKIP"
            for i in live:
                got = clients[i].messages()
                if any(m != b"reload" for m in got):
                    return "client %d was sent %r" % (i, got[:5])
                if len(got) - before[i] != built or clients[i].closed:
                    return "in phase %d the site was built %d times successfully, and the connected client %d of %r was sent %d notifications%s" % (
                        k, built, i, live, len(got) - before[i], ", and was disconnected" if clients[i].closed else "")
            live += ph["late"]
        # the connections which failed are dropped: two more rebuilds are enough for each to be refused
        for k in range(3):
            time.sleep(0.2)
            lay(logs, {"stage": page("end%d" % k)})
            os.chmod(stage, 0o644)
            n = builds("post")
            os.replace(stage, os.path.join(d, "content/index.html"))
            end = time.time() + 10
            while builds("post") == n and time.time() < end:
                time.sleep(0.05)
            time.sleep(0.4)
        have = sockets(p.pid)
        if base is not None and have is not None and have > base + len(live):
            return "%d clients left and %d are connected, and the server still holds %d connections" % (gone, len(live), have - base)
        return None
    finally:
        for x in clients.values():
            try:
                x.s.close()
            except OSError:
                pass
        p.kill()
        p.communicate()


# ------------------------------------------------------------------ C31

JSLIB = r"""
function canon(x) {
  if (x === undefined) return "u";
  if (x === null) return "n";
  if (typeof x === "boolean") return x ? "t" : "f";
  if (typeof x === "number") { const b = new DataView(new ArrayBuffer(8)); b.setFloat64(0, x); return "d" + b.getUint32(0).toString(16) + "_" + b.getUint32(4).toString(16); }
  if (typeof x === "string") { let s = "s"; for (let i = 0; i < x.length; i++) s += x.charCodeAt(i).toString(16) + "."; return s; }
  if (Array.isArray(x)) { let s = "["; for (let i = 0; i < x.length; i++) s += (i in x ? canon(x[i]) : "hole") + ","; return s + "]" + (Object.getOwnPropertyNames(x).length - 1 - x.length || ""); }
  if (typeof x === "object") { let s = Object.getPrototypeOf(x) === Object.prototype ? "{" : "P{"; for (const k of Object.getOwnPropertyNames(x).sort()) s += canon(k) + ":" + canon(x[k]) + ","; return s + "}"; }
  return "?" + typeof x;
}
const VALS = JSON.parse(VALUES);
let local = 0;
function show(...a) { return "<" + a.map(canon).join("|") + ">"; }
function put(name, i) { STUART.set(name, VALS[i]); }
function copy(a, b) { STUART.set(b, STUART.get(a)); }
function setto(name, v) { STUART.set(name, v); }
function fetch_(name) { return "<" + canon(STUART.get(name)) + ">"; }
function nothing() {}
function text(i) { return VALS[i]; }
function inc() { globalThis.counter = (globalThis.counter || 0) + 1; local++; return "<" + globalThis.counter + "," + local + ">"; }
function mark(name) { globalThis[name] = TAG; Object.prototype[name + "_p"] = TAG; Array.prototype.tagged = TAG; String.prototype.tagged = TAG; return; }
function unmark(name) { delete Object.prototype[name + "_p"]; }
function peek(name) { const r = "<" + typeof globalThis[name] + "," + typeof ({})[name + "_p"] + "," + typeof [].tagged + "," + typeof "".tagged + "," + Object.getOwnPropertyNames(globalThis).filter(x => x.startsWith("_stuart_")).sort().join(".") + ">"; return r; }
function undef(i) { STUART.set("und", [{a: undefined, b: [undefined, 1, undefined], c: 2}, {u: undefined}, [undefined]][i]); }
const shared = {k: [1, 2]};
function odd(i, give) {
  const o = {}; o.self = o; const a = [1]; a.push(a, {a}); const p = {q: {r: []}}; p.q.r.push({p});
  const v = [o, a, p, [p, o], () => 1, Symbol("s"), 10n, "\ud800", [Symbol("t"), 5n, odd], new Map([[1, 2]]), new Date(0), /x/, new Uint8Array(4), new Proxy([], {}), new Proxy({}, {get() { throw 1; }}), {get g() { throw 2; }}, Object.create(null), [, , 1], NaN, {toJSON() { throw 3; }}, [shared, shared], globalThis][i];
  if (give === 1) return v;
  STUART.set("odd", v);
}
export default { name: TAG, version: "1", functions: [FUNCS] };
"""
ODD = 22
JSFUNCS = {"show": "show", "put": "put", "copy": "copy", "setto": "setto", "fetch": "fetch_", "nothing": "nothing", "text": "text", "inc": "inc", "mark": "mark", "peek": "peek", "undef": "undef", "unmark": "unmark", "odd": "odd"}


def utf16(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return [b[i] * 256 + b[i + 1] for i in range(0, len(b), 2)]


def jcanon(x):
    if x is None:
        return "n"
    if x is True:
        return "t"
    if x is False:
        return "f"
    if isinstance(x, (int, float)):
        a, b = struct.unpack(">II", struct.pack(">d", float(x)))
        return "d%x_%x" % (a, b)
    if isinstance(x, str):
        return "s" + "".join("%x." % u for u in utf16(x))
    if isinstance(x, list):
        return "[" + "".join(jcanon(y) + "," for y in x) + "]"
    return "{" + "".join(jcanon(k) + ":" + jcanon(x[k]) + "," for k in sorted(x, key=utf16)) + "}"


JSTEXTS = ["", "a", "b", "0", "length", "__proto__", "constructor", "toString", "hasOwnProperty", "prototype", "\u00e9", "\u65e5\u672c", "\U0001f600", "x\U0001d11ey", "\u2028", "\x00", "quote\"", "back\\slash", "tab\t", "line\nbreak", "undefined", "null", "true", "NaN", "1", "-1", "1.5", "4294967295", "01", "_ptr", "get", "set", "valueOf", " ", "x" * 300, "\ufeff", "\uffff", "\u0301e", "'"]
JSNUMS = [0, 1, -1, 2, 10, 0.1, 0.5, -0.5, 1.5, 1e21, 1e-7, 1e300, 5e-324, 1.7976931348623157e308, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740991, 9007199254740993, 123456789.123, 0.30000000000000004, 255, 256, 65536, 1e15, 3.14159]


def jval(r, depth):
    k = r.random()
    if depth == 0 or k < 0.55:
        return r.choice([lambda: r.choice(JSTEXTS), lambda: r.choice(JSTEXTS), lambda: r.choice(JSNUMS), lambda: r.choice(JSNUMS), lambda: True, lambda: False, lambda: None, lambda: r.randrange(-10**6, 10**6) / r.choice([1, 2, 7, 1000]), lambda: [], lambda: {}])()
    if k < 0.78:
        return [jval(r, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 12]))]
    return {r.choice(JSTEXTS): jval(r, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 9]))}


def gen_c31(r):
    n = r.choice([1, 2, 2, 3])
    vals = [jval(r, r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 2, 4]))]
    # constant numbers like -0 are not written alike by everyone
    if r.random() < 0.1:
        vals.append([list(range(r.choice([100, 1000])))])
    jsvals = [jval(r, r.choice([0, 1, 2])) for _ in range(3)]
    strs = ["plain", "", "two words", "\u00e9\u65e5\U0001f600", "a'b", "x" * 200]
    ops = []
    for _ in range(r.randrange(4, 16)):
        p = r.randrange(n)
        k = r.choice(["show", "show", "show", "show2", "put", "put", "copy", "setto", "inc", "inc", "mark", "peek", "peek", "fetch", "nothing", "text", "args", "undef", "miss", "inner", "inner"])
        ops.append([p, k, r.randrange(len(vals)), r.randrange(3), r.choice(["v", "w", "x1"]), r.choice(["v", "w", "x1"]), r.choice(strs), r.choice([0, 1, 7, -3, 2147483647, -2147483648, 42])])
    odd = [[r.randrange(ODD), r.randrange(2), r.random() < 0.5] for _ in range(r.choice([0, 1, 2]))]
    return {"plugins": n, "vals": vals, "jsvals": jsvals, "ops": ops, "odd": odd, "where": r.choice(["%s.mjs", "%s.mjs", "%s/index.mjs", "%s/index.js", "lib/%s.js", "%s/%s/plugin.mjs"])}


def run_c31(c, box):
    n = c["plugins"]
    tags = ["alpha", "beta", "gamma"][:n]
    at = lambda t: c["where"].replace("%s", t)
    files = {"content/root.html": ROOT, "content/d.json": json.dumps(c["vals"], ensure_ascii=False)}
    for i, t in enumerate(tags):
        fs = ", ".join("{name: %s, fn: %s}" % (json.dumps(t[0] + "_" + k), v) for k, v in JSFUNCS.items())
        files[at(t)] = "const TAG = %s;\n" % json.dumps(t) + JSLIB.replace("VALUES", json.dumps(json.dumps(c["jsvals"])).replace("\u2028", "\\u2028")).replace("FUNCS", fs)
    files["stuart.toml"] = manifest(deps=[(t, "./" + at(t)) for t in tags])
    # each value under its own name: a list is walked, one turn for each
    body, want = [], []
    body.append("{{ import($d, \"d.json\") }}")
    vars_, counters, marked = {}, [0] * n, [dict() for _ in range(n)]
    proto = [set() for _ in range(n)]
    body0 = len(body)
    var = lambda i: "$d%d" % i
    # bring each value into a variable of its own
    files["content/root.html"] = ROOT
    files["content/one.json"] = "[1]"
    for i, v in enumerate(c["vals"]):
        files["content/d%d.json" % i] = json.dumps(v, ensure_ascii=False)
        body.append("{{ import($d%d, \"d%d.json\") }}" % (i, i))
    allnames = lambda p: ".".join(sorted("_stuart_%s_%s" % (tags[p][0], k) for k in JSFUNCS))
    for p, k, i, j, a, b, s, num in c["ops"]:
        pre = tags[p][0] + "_"
        # a variable is set once: the first definition in a frame is the one that counts
        if k in ("put", "setto") and a in vars_ or k == "copy" and b in vars_ or k == "undef" and "und" in vars_:
            continue
        if k == "undef":
            vars_["und"] = None
        if k == "show":
            body.append("{{ %sshow($d%d) }}" % (pre, i))
            want.append("<" + jcanon(c["vals"][i]) + ">")
        elif k == "show2":
            i2 = (i + 1) % len(c["vals"])
            body.append("{{ %sshow($d%d, \"%s\", $d%d, %d) }}" % (pre, i, s, i2, num))
            want.append("<" + "|".join([jcanon(c["vals"][i]), jcanon(s), jcanon(c["vals"][i2]), jcanon(num)]) + ">")
        elif k == "args":
            body.append("{{ %sshow(%d, \"%s\", 0, \"\", 1) }}" % (pre, num, s))
            want.append("<" + "|".join([jcanon(num), jcanon(s), jcanon(0), jcanon(""), jcanon(1)]) + ">")
        elif k == "put":
            body.append("{{ %sput(\"%s\", %d) }}" % (pre, a, j))
            vars_[a] = c["jsvals"][j]
        elif k == "setto":
            body.append("{{ %ssetto(\"%s\", $d%d) }}" % (pre, a, i))
            vars_[a] = c["vals"][i]
        elif k == "copy":
            if a in vars_:
                body.append("{{ %scopy(\"%s\", \"%s\") }}" % (pre, a, b))
                vars_[b] = vars_[a]
        elif k == "inner":
            # what is stored belongs to the innermost block
            body.append("{{ for($it, \"one.json\") }}{{ %ssetto(\"%s\", $d%d) }}{{ %sfetch(\"%s\") }}{{ %sfetch(\"%s\") }}{{ end(for) }}{{ %sfetch(\"%s\") }}" % (pre, a, i, pre, a, pre, b, pre, a))
            want += ["<" + jcanon(c["vals"][i]) + ">", "<" + (jcanon(c["vals"][i]) if a == b else jcanon(vars_[b]) if b in vars_ else "u") + ">", "<" + (jcanon(vars_[a]) if a in vars_ else "u") + ">"]
        elif k == "undef":
            body.append("{{ %sundef(%d) }}{{ %sfetch(\"und\") }}" % (pre, j, pre))
            want.append("<" + jcanon([{"b": [None, 1, None], "c": 2}, {}, [None]][j]) + ">")
        elif k == "inc":
            counters[p] += 1
            body.append("{{ %sinc() }}" % pre)
            want.append("<%d,%d>" % (counters[p], counters[p]))
        elif k == "mark":
            # the prototypes of a plugin are its own: it is not shown values while it has changed them
            body.append("{{ %smark(\"g_%s\") }}" % (pre, a))
            for q in range(n):
                pq = tags[q][0] + "_"
                hit = "string" if q == p or marked[q].get(a) else "undefined"
                tagged = "string" if q == p or marked[q] else "undefined"
                body.append("{{ %speek(\"g_%s\") }}" % (pq, a))
                want.append("<%s,%s,%s,%s,%s>" % (hit, "string" if q == p else "undefined", tagged, tagged, allnames(q)))
            body.append("{{ %sunmark(\"g_%s\") }}" % (pre, a))
            marked[p][a] = True
        elif k == "peek":
            t = "string" if marked[p] else "undefined"
            body.append("{{ %speek(\"g_%s\") }}" % (pre, a))
            want.append("<%s,undefined,%s,%s,%s>" % ("string" if marked[p].get(a) else "undefined", t, t, allnames(p)))
        elif k == "fetch":
            body.append("{{ %sfetch(\"%s\") }}" % (pre, a))
            want.append("<" + (jcanon(vars_[a]) if a in vars_ else "u") + ">")
            if a in vars_:
                body.append("{{ %sshow($%s, $%s) }}" % (pre, a, a))
                want.append("<" + jcanon(vars_[a]) + "|" + jcanon(vars_[a]) + ">")
        elif k == "nothing":
            body.append("[{{ %snothing($d%d) }}]" % (pre, i))
            want.append("[]")
        elif k == "text":
            v = c["jsvals"][j]
            if isinstance(v, str) and v.isprintable():
                body.append("[{{ %stext(%d) }}]" % (pre, j))
                want.append("[" + v + "]")
        elif k == "miss":
            body.append("{{ %sfetch(\"never\") }}" % pre)
            want.append("<u>")
    files["content/a.html"] = page("@" + "".join(body) + "@")
    d = box.dir()
    try:
        lay(d, files)
        box.own(d)
        rc, o, e = box.run(["build"], d)
        bad = crashed(rc, e)
        if bad:
            return bad + " page: " + files["content/a.html"][:600]
        if rc:
            return "the build failed: " + (o + e)[-400:].decode("utf-8", "replace")
        got = open(os.path.join(d, "dist/a/index.html"), encoding="utf-8", newline="").read()
        m = re.search("@(.*)@", got, re.S)
        got = m.group(1) if m else got
        if got != "".join(want):
            at = 0
            for w in want:
                if got[at:at + len(w)] != w:
                    break
                at += len(w)
            return "the page %s shows %s where %s is right (and %s came before)" % (files["content/a.html"][:900], got[at:at + 300], w[:300], got[max(0, at - 60):at])
        # values without a JSON form: whatever they become, the program goes on to its end
        for v, give, show in c.get("odd", []):
            open(os.path.join(d, "content/a.html"), "w").write(page("{{ a_odd(%d, %d) }}" % (v, give) + ("{{ a_show($odd) }}{{ a_fetch(\"odd\") }}" if show and not give else "")))
            rc, o, e = box.run(["build"], d)
            bad = crashed(rc, e)
            if bad:
                return "a plugin function which %s value %d of its list `odd`: %s" % ("returns" if give else "stores", v, bad)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ C32

NAMES = ["A", "HOME2", "lower", "mixed_Case", "X1", "_u", "STUART_ENV", "STUART_ENV", "STUART_MANIFEST_DIR", "LONG_NAME_WITH_MANY_PARTS", "STUART", "ENV", "STUART_ENV2", "PWDX"]
VALUES = ["", "x", "production", "development", "a b", "quote\"s", "\\n", "caf\u00e9", "\u65e5\u672c", "{{ $x }}", "<b>&amp;", "line1\nline2", "0", "null", "true", "x" * 3000, "=", "a=b=c", "\t"]


def gen_c32(r):
    env = {}
    for _ in range(r.randrange(7)):
        env[r.choice(NAMES)] = r.choice(VALUES)
    bad = []
    for _ in range(r.choice([0, 0, 1, 2])):
        bad.append([enc(r.choice([b"BAD\xff", b"\xfe", b"OK", b"STUART_ENV", b"Z\xc3"])), enc(r.choice([b"\xff\xfe", b"ok", b"a\xffb", b"\xc3"]))])
    return {"env": env, "bad": bad, "cmd": "dev" if r.random() < 0.02 else r.choice(["build", "build", "build", "bench"]), "deep": r.random() < 0.5}


PORT = threading.Lock()


def run_c32(c, box):
    d = box.dir()
    env = dict(c["env"])
    names = [n for n in env if n != "STUART_ENV"]
    body = "S={{ $env.STUART_ENV }};" + "".join("%s={{ $env.%s }};" % (n, n) for n in sorted(names))
    kind = {"build": "production", "bench": "benchmark", "dev": "development"}[c["cmd"]]
    full = {k: v for k, v in env.items()}
    for k, v in c["bad"]:
        kb, vb = dec(k), dec(v)
        try:
            kb.decode(), vb.decode()
            if kb.decode() in full:
                continue
        except UnicodeDecodeError:
            if kb.decode("utf-8", "replace") in full and kb.decode("utf-8", "replace") != "STUART_ENV":
                continue
        full = {a: b for a, b in full.items() if (a if isinstance(a, bytes) else a.encode()) != kb}
        full[kb] = vb
    where = "content/" + ("sub/" if c["deep"] else "") + "p.html"
    lay(d, {"stuart.toml": manifest("x", None, [["strip_extensions", False]]), "content/root.html": ROOT, where: page(body), "content/m.md": "{{ $env.STUART_ENV }}\n", "content/md.html": page("{{ $self.content }}")})
    box.own(d)
    if c["cmd"] == "dev":
        with PORT:                              # one server at a time
            if not port_free():
                return "SKIP"
            p = box.popen(["-q", "dev"], d, env=full)
            try:
                if not wait_port(p):
                    return "SKIP"
            finally:
                p.kill()
                o, e = p.communicate()
        f = crashed(0, e)                       # the site is built before the server listens
        if f:
            return f
    else:
        args = ["build"] if c["cmd"] == "build" else ["bench", "-i", "2"]
        rc, o, e = box.run(args, d, env=full)
        f = crashed(rc, e)
        if f:
            return f
        if rc != 0:
            return "the build fails: " + e.decode("utf-8", "replace")[-300:]
    want = page_out("S=%s;" % kind + "".join("%s=%s;" % (n, env[n]) for n in sorted(names)))
    got = open(os.path.join(d, where.replace("content", "dist")), newline="").read()
    if got != want:
        return "the page shows %r, expected %r" % (got[:400], want[:400])
    m = open(os.path.join(d, "dist/m.html")).read()
    if kind not in m:
        return "the markdown page shows %r, expected %s" % (m, kind)
    return None


# ------------------------------------------------------------------ C33: a new site

SITES = ["blog", "my-site", "My Site", "quote\"d", "back\\slash", "caf\u00e9", "\u65e5\u672c", "it's", "a.b", "$(x)", "\u00bd\t\u2028", "#1", "x=y", "dist", "true", "in/side", "in/../up", "./here", "@/abs", "@/ab\"s", "@/in/deep", "[x]", "stuart.toml", "stuart.toml.d", "in/stuart.toml", "new\nline", "e\\", "\u007f\u0001"]
PEOPLE = ["Jane Doe", "J\"ane\"", "back\\slash", "Zo\u00eb", "\u65e5\u672c", "O'Hara", "A <b> & c", "1", "true"]
MAILS = ["jane@example.org", "j@x", "\"odd one\"@example.org", "caf\u00e9@x.y"]


def gen_c33(r):
    return {"name": r.choice(SITES) if r.random() < 0.9 else r.choice(["missing/x", "", ".", "in", "there/blog", "@/missing/x"]), "git": r.random() < 0.5, "user": r.choice(PEOPLE) if r.random() < 0.7 else None, "mail": r.choice(MAILS) if r.random() < 0.7 else None,
            "taken": r.choice([None, None, None, None, "dir", "file", "full"]), "inrepo": r.random() < 0.2}


def template():
    out = {}
    base = "/repo/stuart/tests/basic"
    for k, v in snap(base).items():
        if k != "stuart.toml" and not k.endswith("/"):
            out[k] = v
    return out


def run_c33(c, box):
    import tomllib
    d = box.dir()
    # the site is made in d/w, so that what happens next to it can be seen
    name = c["name"].replace("@", os.path.join(d, "w"), 1) if c["name"].startswith("@") else c["name"]
    lay(d, {"w/in/": "", "w/there": "a file", "w/keep.txt": "kept", "w/content/": "", "w/content/a.html": "x", "home/": ""})
    w = os.path.join(d, "w")
    site = os.path.join(w, name)
    taken = c["taken"]
    if taken and c["name"] in SITES:
        if taken == "file":
            open(site, "w").write("mine")
        else:
            os.makedirs(site)
            if taken == "full":
                os.makedirs(os.path.join(site, "content"))
                open(os.path.join(site, "content/index.html"), "w").write("mine")
                open(os.path.join(site, "stuart.toml"), "w").write("mine")
    home = os.path.join(d, "home")
    cfg = os.path.join(home, ".gitconfig")
    genv = dict(os.environ, HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL=cfg)
    for k, v in (("user.name", c["user"]), ("user.email", c["mail"])):
        if v is not None:
            subprocess.run(["git", "config", "--file", cfg, k, v], check=True, env=genv, cwd=d, capture_output=True)
    box.own(d)
    before = snap(w)
    exists = os.path.lexists(site) if name else True
    creatable = bool(name) and not exists and os.path.isdir(os.path.dirname(site.rstrip("/")))
    env = {"HOME": home, "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": cfg, "GIT_CEILING_DIRECTORIES": d}
    rc, o, e = box.run(["new", name] + ([] if c["git"] else ["--no-git"]), w, env=env)
    f = crashed(rc, e)
    if f:
        return f
    after = snap(w)
    if not creatable:
        if rc == 0:
            return "a site was created although %s" % ("something of its name exists" if exists else "its directory cannot be made")
        if after != before:
            return "the site is refused, but files changed: %s" % diff(before, after)
        return None
    if rc != 0:
        return "the site was not created: " + e.decode("utf-8", "replace")[-300:]
    rel = os.path.relpath(site, w)
    mine = {k[len(rel) + 1:]: v for k, v in after.items() if k.startswith(rel + "/") and k != rel + "/"}
    rest = {k: v for k, v in after.items() if not k.startswith(rel + "/")}
    if rest != before:
        return "files outside the new site changed: %s" % diff(before, rest)
    want = dict(template())
    want.update({"content/": b"", "static/": b""})
    if c["git"]:
        want[".gitignore"] = b"dist/\n_build/\nmetadata.json\n"
        if ".git/" not in mine:
            return "there is no repository in the new site"
    plain = {k: v for k, v in mine.items() if not k.startswith(".git/")}
    m = plain.pop("stuart.toml", None)
    if plain != want:
        return "the new site is %s" % diff(want, plain)
    try:
        t = tomllib.loads(m.decode())
    except Exception as ex:
        return "the project file is not valid TOML: %r (%s)" % (m, ex)
    ws = {"name": name}
    if c["user"] is not None and c["mail"] is not None:
        ws["author"] = "%s <%s>" % (c["user"], c["mail"])
    if t != {"site": ws}:
        return "the project file says %r, expected %r" % (t, {"site": ws})
    rc, o, e = box.run(["build"], site, env=env)
    if rc != 0 or not os.path.exists(os.path.join(site, "dist/index.html")):
        return "the new site cannot be built: " + e.decode("utf-8", "replace")[-300:]
    return None


# ------------------------------------------------------------------ C34: clean

KEPT = ["content/root.html", "content/a.html", "static/s.css", "scripts/x.sh", "dist2/a", "content/dist/a.html", "content/_build/b.html", "content/metadata.json", "static/metadata.json", "metadata.json.bak", "_build2", "xdist", "build/x", "sub/dist/x", ".dist/x", "DIST/x", "plugins/p.js", "_build.txt", "temp/t.html", "out/o.html", "target/x", "metadata.jsonl", ".gitignore", "dist.toml"]
GONE = ["dist/index.html", "dist/a/b/c.html", "dist/.hidden", "dist/empty/", "_build/x", "_build/d/y", "metadata.json"]


def gen_c34(r):
    return {"project": r.random() < 0.85, "kept": sorted(set(r.choice(KEPT) for _ in range(r.randrange(10)))), "gone": sorted(set(r.choice(GONE) for _ in range(r.randrange(5)))),
            "link": r.choice([None, None, None, "dist", "_build", "metadata.json", "inside"]), "flag": r.choice([[], [], ["-q"], ["-v"]])}


def run_c34(c, box):
    d = box.dir()
    files = {"p/" + k: "kept " + k for k in c["kept"]}
    gone = [g for g in c["gone"] if c["link"] != g.split("/")[0]]
    files.update({"p/" + k: ("" if k.endswith("/") else "gone") for k in gone})
    files.update({"away/a/b.txt": "kept", "away/m.json": "kept", "dist/x": "kept", "p/": ""})
    if c["project"]:
        files["p/stuart.toml"] = manifest()
    lay(d, files)
    p = os.path.join(d, "p")
    if c["link"] == "inside":
        os.makedirs(os.path.join(p, "dist"), exist_ok=True)
        os.symlink(os.path.join(d, "away"), os.path.join(p, "dist/link"))
    elif c["link"]:
        os.symlink(os.path.join(d, "away/m.json" if c["link"] == "metadata.json" else "away"), os.path.join(p, c["link"]))
    box.own(d)
    before = snap(d)
    rc, o, e = box.run(c["flag"] + ["clean"], p)
    f = crashed(rc, e)
    if f:
        return f
    after = snap(d)
    if not c["project"]:
        if rc == 0:
            return "a directory without a project file was cleaned"
        if after != before:
            return "a directory without a project file was changed: %s" % diff(before, after)
        return None
    if rc != 0:
        return "the project was not cleaned: " + e.decode("utf-8", "replace")[-300:]
    want = {k: v for k, v in before.items() if not (k in ("p/dist/", "p/_build/", "p/metadata.json", "p/dist", "p/_build") or k.startswith("p/dist/") or k.startswith("p/_build/"))}
    if after != want:
        return "after clean the files are %s" % diff(want, after)
    for x in ("dist", "_build", "metadata.json"):
        if os.path.lexists(os.path.join(p, x)):
            return "%s is still there" % x
    return None


# ------------------------------------------------------------------ C35: the exit status

BAD = {
    "none": {},
    "no manifest": {"stuart.toml": None},
    "bad manifest": {"stuart.toml": "[site\n"},
    "no name": {"stuart.toml": "[site]\nauthor = \"x\"\n"},
    "bad setting": {"stuart.toml": "[site]\nname = \"x\"\n[settings]\nsave_metadata = 3\n"},
    "no content": {"content/root.html": None, "content/a.html": None},
    "no root": {"content/root.html": None},
    "syntax": {"content/a.html": "{{ begin(\"main\") }}{{ frobnicate }}{{ end(\"main\") }}"},
    "undefined": {"content/sub/b.html": "{{ begin(\"main\") }}{{ $nothing.at.all }}{{ end(\"main\") }}"},
    "unclosed": {"content/a.html": "{{ begin(\"main\") }} x"},
    "conflict": {"content/a/index.html": page("y")},
    "static conflict": {"static/a/index.html": "y"},
    "bad json": {"content/d.json": "{"},
    "bad data": {"content/d.md": "no frontmatter"},
    "pre fails": {"scripts/onPreBuild.sh": "#!/bin/sh\nexit 3\n"},
    "post fails": {"scripts/onPostBuild.sh": "#!/bin/sh\nexit 1\n"},
    "pre killed": {"scripts/onPreBuild.sh": "#!/bin/sh\nkill -9 $$\n"},
    "second fails": {"scripts/onPreBuild.sh": "#!/bin/sh\n[ -e ../seen ] && exit 1\n[ -e seen ] && exit 1\n: > seen\n"},
    "no plugin": {"stuart.toml": "[site]\nname = \"x\"\n[dependencies]\np = \"./nowhere\"\n"},
}
# what ends each of these, and whether one build notices it
ONCE = {"none", "second fails"}


def gen_c35(r):
    return {"cmd": r.choice(["build", "build", "build", "bench", "bench", "clean", "new", "dev"]), "bad": r.choice(sorted(BAD)) if r.random() < 0.75 else "none", "flag": r.choice([[], [], ["-q"], ["-v"]]),
            "iters": r.choice(["1", "2", "3", "0", "x", "-1", ""]), "where": r.choice([None, None, "sub/stuart.toml", "nowhere/stuart.toml"]), "again": r.random() < 0.3}


def run_c35(c, box):
    d = box.dir()
    where = c["where"] if c["cmd"] == "build" else None
    base = "sub/" if where == "sub/stuart.toml" else ""
    files = {"stuart.toml": manifest(), "content/root.html": ROOT, "content/a.html": page("a"), "content/sub/b.html": page("b")}
    files.update(BAD[c["bad"]])
    lay(d, {base + k: v for k, v in files.items() if v is not None})
    s = os.path.join(d, base, "scripts")
    if os.path.isdir(s):
        for x in os.listdir(s):
            os.chmod(os.path.join(s, x), 0o755)
    box.own(d)
    fails = c["bad"] not in ONCE
    cmd = c["cmd"]
    if cmd == "dev" and c["bad"] not in ("no manifest", "bad manifest", "no name", "bad setting", "no plugin"):
        cmd = "build"       # a server that starts goes on running
    if cmd == "build":
        args = ["build"] + (["--manifest-path", where] if where else [])
        fails = fails or where == "nowhere/stuart.toml"
    elif cmd == "bench":
        n = c["iters"]
        args = ["bench", "--iters=" + n]
        ok = n.isdigit()
        init = c["bad"] in ("no manifest", "bad manifest", "no name", "bad setting", "no plugin")
        if not ok:
            fails = True
        elif n == "0":
            fails = init
        elif c["bad"] == "second fails":
            fails = n != "1"
    elif cmd == "dev":
        args, fails = ["dev"], True
    elif cmd == "clean":
        args, fails = ["clean"], c["bad"] == "no manifest"
    else:
        args, fails = ["new", "content" if c["again"] else "fresh", "--no-git"], c["again"] and any(k.startswith("content/") and v is not None for k, v in files.items())
    rc, o, e = box.run(c["flag"] + args, d, timeout=30)
    if rc not in (0, 2):
        f = crashed(rc, e)
        if f:
            return f
    if cmd == "bench" and c["iters"] in ("", "-1") and rc == 2:
        return None         # refused by the command line already
    if fails and rc == 0:
        return "`%s` (%s) fails, but the exit status says it succeeded" % (" ".join(args), c["bad"])
    if not fails and rc != 0:
        return "`%s` (%s) succeeds, but the exit status is %d: %s" % (" ".join(args), c["bad"], rc, e[-300:].decode("utf-8", "replace"))
    if fails and not e.strip():
        return "`%s` (%s) fails without a word" % (" ".join(args), c["bad"])
    return None


# ------------------------------------------------------------------ driving

class Check:
    def __init__(self, gen, run, workers=8):
        self.gen, self.runner, self.workers = gen, run, workers

    def build(self):
        return build()

    def search(self, prop, seed, secs, workdir):
        stats = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
        end = time.time() + secs
        seen, found, notes = set(), [], []
        lock = threading.Lock()
        box = Box()

        def work(w):
            r = random.Random("%s-%s-%d" % (prop, seed, w))
            while time.time() < end and not found:
                c = self.gen(r)
                try:
                    f = self.runner(c, box)
                    if f not in (None, "SKIP"):
                        f = self.runner(c, box)     # a failure counts only when it happens again
                except Exception as ex:
                    notes.append("driver: %s %s" % (type(ex).__name__, ex))
                    f = "SKIP"
                with lock:
                    if f == "SKIP":
                        notes.append("a case could not be run")
                        if len(notes) > 20:
                            return
                        continue
                    stats["evaluations"] += 1
                    seen.add(hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest())
                    if len(stats["samples"]) < 3:
                        stats["samples"].append(json.dumps(c)[:300])
                    if f is not None:
                        found.append({"property": prop, "failure": f, "input": c})
                        return
        try:
            ts = [threading.Thread(target=work, args=(w,)) for w in range(self.workers)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            box.close()
        stats["distinct_nontrivial"] = len(seen)
        return (found[0] if found else None), stats, "; ".join(notes[:2])


CHECKS = {"C23": Check(gen_c23, run_c23), "C24": Check(gen_c24, run_c24), "C25": Check(gen_c25, run_c25),
          "C26": Check(gen_c26, run_c26, workers=1), "C29": Check(gen_c29, run_c29), "C30": Check(gen_c30, run_c30, workers=1),
          "C31": Check(gen_c31, run_c31), "C32": Check(gen_c32, run_c32), "C33": Check(gen_c33, run_c33), "C34": Check(gen_c34, run_c34), "C35": Check(gen_c35, run_c35)}


def main():
    if sys.argv[1] == "replay":
        data = json.load(open(sys.argv[2]))
        ok, err = build()
        if not ok:
            print("the program does not build:", err)
            return 2
        box = Box()
        try:
            f = CHECKS[data["property"]].runner(data["input"], box)
        finally:
            box.close()
        print(f or "no failure")
        return 1 if f else 0
    prop, secs = sys.argv[2], float(sys.argv[3])
    f, s, n = CHECKS[prop].search(prop, int(sys.argv[4]) if len(sys.argv) > 4 else 1, secs, None)
    print(json.dumps(f)[:1500], s["evaluations"], s["distinct_nontrivial"], n)
    return 1 if f else 0


if __name__ == "__main__":
    sys.exit(main())
