"""The check behind every MANIFEST command: prove the contracts of one property over /repo's current source,
then look for a failing input of the real code (replay of a failed obligation, bounded check of what is not under contract)."""
import os, sys, re, json, time, subprocess, threading, shutil, tempfile, hashlib, fnmatch, glob
import vx

VERIF, REPO, OUT = vx.VERIF, vx.REPO, vx.OUT
WORKERS = 8

# what Verus reports when an obligation is not discharged (anything else is a file it could not accept: undecided)
FAILED = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                    r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied|"
                    r"recommendation not met|could not prove termination|loop ensures not satisfied|possible bit shift|"
                    r"unreachable code might be reachable|assert_by.*fail|split (assertion|postcondition|precondition) failure|might be out of bounds|index out of bounds|"
                    r"at the end of the loop body|before loop|type invariant|possible overflow|constructed value may fail|decreases")
UNDECIDED = re.compile(r"[Rr]esource limit|rlimit|timed out|must have a decreases|not supported|not yet support|unsupported|mode|resolve|mismatched|cannot find|expected|The verifier does not")


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ the harness over the real code

def build(manifest, args=(), target=None):
    t = target or os.path.join(VERIF, "harness/target")
    r = vx.sh(["cargo", "build", "--offline", "-q", "--manifest-path", manifest, "--target-dir", t, *args], env=dict(vx.env(), CARGO_INCREMENTAL="0"))
    return r.returncode == 0, r.stderr[-3000:]


def build_harness():
    return build(os.path.join(VERIF, "harness/Cargo.toml"))


def harness_bin():
    return os.path.join(VERIF, "harness/target/debug/harness")


def search(prop, seed, secs, workdir, workers=WORKERS):
    """-> (failure dict or None, stats dict, note)"""
    shm = None
    try:
        shm = tempfile.mkdtemp(prefix="stuart-search-", dir="/dev/shm")   # much faster than the disk
        workdir = shm
    except OSError:
        shutil.rmtree(workdir, ignore_errors=True)
        os.makedirs(workdir)
    try:
        return search_in(prop, seed, secs, workdir, workers)
    finally:
        if shm:
            shutil.rmtree(shm, ignore_errors=True)


def literals():
    """the short texts and the numbers written in the source under test: {file: {literal as JSON: times}}"""
    out = {}
    for d, _, fs in sorted(os.walk(vx.REPO)):
        if "/target" in d or "/.git" in d or "/tests" in d or not (d + "/").startswith((vx.REPO + "/stuart/src/", vx.REPO + "/stuart-core/src/")):
            continue
        for f in sorted(fs):
            if f.endswith(".rs"):
                c = out.setdefault(os.path.relpath(os.path.join(d, f), vx.REPO), {})

                def add(x):
                    k = json.dumps(x, ensure_ascii=False)
                    c[k] = c.get(k, 0) + 1
                t = re.sub(r"(?<![:\"])//[^\n]*", "", open(os.path.join(d, f), errors="replace").read())
                for m in re.finditer(r'"((?:[^"\\\n]|\\.){0,40})"', t):
                    try:
                        add(json.loads('"' + m.group(1).replace("\\'", "'").replace("\\0", "\\u0000") + '"'))
                    except ValueError:
                        pass
                for m in re.finditer(r"'([^'\\\n])'|'\\(.)'", t):
                    add(m.group(1) or {"n": "\n", "r": "\r", "t": "\t"}.get(m.group(2), m.group(2)))
                for m in re.finditer(r"\b(\d[\d_]{0,11})(?:[iu](?:8|16|32|64|size))?\b", t):
                    add(int(m.group(1).replace("_", "")))
    return out


def dictionary():
    """literals which a file of the source has more often than in its pinned state: the generators use them now and then"""
    p = os.path.join(VERIF, "tools/literals.json")
    old = json.load(open(p)) if os.path.exists(p) else {}
    new = [json.loads(k) for f, c in literals().items() for k, n in c.items() if n > old.get(f, {}).get(k, 0)]
    ints = sorted({y for x in new if isinstance(x, int) for y in (x - 1, x, x + 1)})
    return ints[:60] + sorted({x for x in new if isinstance(x, str) and x})[:60]


def search_in(prop, seed, secs, workdir, workers):
    procs = []
    tmp = os.path.join(workdir, "tmp")
    os.makedirs(tmp)
    dic = os.path.join(workdir, "dict")
    json.dump(dictionary(), open(dic, "w"), ensure_ascii=False)
    e = dict(vx.env(), TMPDIR=tmp, STUART_HARNESS_DICT=dic)
    for w in range(workers):
        out = os.path.join(workdir, "w%d.json" % w)
        so = open(os.path.join(workdir, "w%d.log" % w), "w+")
        procs.append((subprocess.Popen([harness_bin(), "run", prop, str(seed), str(secs), str(w), out], stdout=so, stderr=subprocess.DEVNULL, env=e), out, so))
    stats = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    failure, errs = None, []
    end = time.time() + secs + 60
    live = list(procs)
    while live and failure is None:
        time.sleep(0.1)
        for p in list(live):
            rc = p[0].poll()
            if rc is None and time.time() < end:
                continue
            live.remove(p)
            if rc is None:
                p[0].kill(); p[0].wait()
                errs.append("worker did not stop")
                continue
            p[2].seek(0)
            text = p[2].read()
            if rc == 0:
                s = json.loads(text.strip().split("\n")[-1])
                stats["evaluations"] += int(s["evaluations"])
                stats["distinct_nontrivial"] += int(s["distinct_nontrivial"])
                if len(stats["samples"]) < 3:
                    stats["samples"] += s["samples"][:1]
            elif rc == 1:
                failure = json.load(open(p[1]))
            elif rc < 0 or rc == 134:
                cur = p[1][:-5] + ".current"
                if os.path.exists(cur):
                    failure = {"property": prop, "failure": "the process died (signal %d)" % -rc, "input": json.load(open(cur))}
            else:
                errs.append("worker ended with %d" % rc)
    for p in live:
        p[0].kill(); p[0].wait()
    for p in procs:
        p[2].close()
    shutil.rmtree(tmp, ignore_errors=True)
    return failure, stats, "; ".join(errs[:2])


def confirm(failure, path):
    """a failure counts only when the replay fails again"""
    json.dump(failure, open(path, "w"))
    r = vx.sh([harness_bin(), "replay", path], env=vx.env(), timeout=120) if "does not terminate" not in failure["failure"] else None
    return r is None or r.returncode != 0


# ------------------------------------------------------------------ the proof

def skeleton(it):
    """what annotations are anchored to: the markers of the body, in order"""
    return [m.group(0) for m in vx.MARK.finditer(it["body"] or "")]


def load_skeletons():
    p = os.path.join(VERIF, "contracts/skeletons.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def prove(prop, tag):
    """-> dict(status: proved|failed|undecided, ...)"""
    r = {"status": "undecided", "why": "", "failed": [], "bodied": [], "obligations": 0, "discharged": 0, "secs": 0.0, "smt_ms": 0, "trusted": [], "stubs": []}
    try:
        ex, cfg = vx.extract()
        ex["cfg"] = cfg
        cs = vx.load_contracts()
        g, bodied, lost, missing = vx.generate(ex, cs, prop)
    except Exception as e:
        r["why"] = "extraction failed: %s" % (str(e)[-600:],)
        return r
    r["bodied"] = bodied
    r["total_fns"] = sum(1 for k, it in ex["items"].items() if it["kind"] == "fn")
    path = os.path.join(OUT, tag + ".rs")
    open(path, "w").write("\n".join(g.lines) + "\n")
    r["file"] = path
    r["missing"] = [m for m in missing if prop in cs[m].props]
    sk = load_skeletons()
    changed = [k for k in bodied if k in sk and sk[k] != skeleton(ex["items"][k])]
    r["changed"], r["lost"] = changed, ["%s at %s" % l for l in lost if l[0] in bodied]
    # everything the proof assumes
    gen = {}
    for k, c in cs.items():
        for kk in ([k] if "*" not in k else [x for x in ex["items"] if fnmatch.fnmatchcase(x, k)]):
            gen[kk] = c
    r["trusted"] = sorted("%s: %s" % (k, c.trusted) for k, c in gen.items() if c.trusted and k in ex["items"])
    r["stubs"] = sorted(k for k in gen if k in ex["items"] and k not in bodied)
    txt = "\n".join(g.lines)
    r["axioms"] = len(re.findall(r"\b(?:axiom fn|broadcast axiom)|external_body\]\s*(?:pub )?(?:broadcast )?proof fn|admit\(\)", txt))
    r["n_shim"] = len(re.findall(r"external_body|assume_specification", "\n".join(open(f).read() for f in sorted(glob.glob(VERIF + "/shim/*.rs")))))
    if r["missing"]:
        r["why"] = "functions under contract are no longer in the source: " + ", ".join(r["missing"])
        return r
    res = vx.run_verus(path, timeout=600)
    r["secs"] = res["secs"]
    if res["timeout"]:
        r["why"] = "the verifier ran out of time"
        return r
    errs = vx.errors_of(res, g)
    v = res["json"].get("verification-results") or {}
    r["smt_ms"] = sum(m.get("smt-run-module-time", m.get("time", 0)) if isinstance(m, dict) else 0 for m in res["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])) or (res["json"].get("times-ms", {}).get("smt", {}) or {}).get("total", 0)
    r["discharged"] = v.get("verified", 0)
    r["obligations"] = v.get("verified", 0) + v.get("errors", 0)
    if v.get("success") and not errs:
        if not bodied:
            r["why"] = "no function under contract"
            return r
        r["status"] = "proved"
        return r
    hard = [e for e in errs if e["code"] or (not FAILED.search(e["msg"])) or re.search(r"[Rr]esource limit|rlimit", e["msg"])]
    if not v or v.get("encountered-vir-error") or hard:
        e = (hard or errs or [{"msg": res["stderr"][-300:], "fn": None}])[0]
        r["why"] = "the verifier does not accept the extracted text (%s in %s)" % (e["msg"][:200], e["fn"])
        r["ext_errors"] = [x for x in (ex.get("errors") or [])][:5]
        return r
    mine = []
    for e in errs:
        if e["fn"] is None:
            mine.append(e)   # a lemma of the specification: can only follow from extracted data
        elif not e["tags"] or prop in e["tags"]:
            mine.append(e)
    if not mine:
        r["status"] = "undecided"
        r["why"] = "the failed obligations belong to other properties: " + "; ".join("%s in %s" % (e["msg"], e["fn"]) for e in errs[:4])
        return r
    r["failed"] = [{"function": e["fn"], "obligation": e["msg"], "clause": e["clause"], "verifier_output": e["rendered"][:3000]} for e in mine]
    bad = {e["fn"] for e in mine}
    if any(k in bad for k in changed) or any(l.split(" at ")[0] in bad for l in r["lost"]):
        r["status"] = "undecided"
        r["why"] = "the annotations no longer fit the shape of " + ", ".join(sorted(str(b) for b in bad))
        return r
    r["status"] = "failed"
    return r


def canary(prop, tag):
    """every function under contract must be able to fail: `assert(false)` at its start has to be refused"""
    ex, cfg = vx.extract()
    ex["cfg"] = cfg
    cs = vx.load_contracts()
    g, bodied, lost, missing = vx.generate(ex, cs, prop)
    out, want, i = [], {}, 0
    prev = None
    pending = None
    for l, m in zip(g.lines, g.map):
        if pending and l.strip() and not l.strip().startswith("hide("):
            out.append("  proof { assert(false); }")
            want[len(out) - 1] = pending
            pending = None
        out.append(l)
        if m[1] == "body" and l == "{" and m[0] != prev:
            pending = prev = m[0]
    path = os.path.join(OUT, tag + ".rs")
    open(path, "w").write("\n".join(out) + "\n")
    res = vx.run_verus(path, extra=["--rlimit", "4"], timeout=400)
    got = set()
    for d in res["diags"]:
        for s in d.get("spans", []):
            if d.get("level") != "error":
                continue
            # refused; or no answer within its resources, and the span is that of the function's head
            at = s["line_start"] - 1
            if "esource limit" in d.get("message", ""):
                at = min([k for k in want if k > at], default=-1)
            if at in want:
                got.add(want[at])
    os.remove(path)
    vr = res["json"].get("verification-results", {})
    if res["timeout"] or "verified" not in vr or vr.get("encountered-vir-error"):
        return None
    return sorted(set(want.values()) - got)


# ------------------------------------------------------------------ the check

def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def write_replay(prop, data):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump(data, open(p, "w"), indent=1)
    return p


def other_checks(prop):
    """checks which drive the stuart binary (tools/bincheck.py)"""
    try:
        import bincheck
    except ImportError:
        return None
    return bincheck.CHECKS.get(prop)


def check(args):
    prop = args[0]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if thorough else "quick"
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=OUT)
    try:
        return run(prop, thorough, seed, tier, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, thorough, seed, tier, t0, work):
    tag = os.path.join(os.path.basename(work), prop)
    binchk = other_checks(prop)
    p = {}

    def proof():
        p["r"] = prove(prop, tag)
    th = threading.Thread(target=proof)
    try:
        vx.vx_binary()
    except RuntimeError as e:
        log("ERROR", e)
        return 2
    th.start()
    if binchk:
        ok, err = binchk.build()
    else:
        ok, err = build_harness()
    th.join()
    pr = p.get("r") or {"status": "undecided", "why": "the proof step crashed", "failed": [], "bodied": [], "obligations": 0, "discharged": 0, "secs": 0, "smt_ms": 0, "trusted": [], "stubs": [], "axioms": 0, "n_shim": 0}
    log("proof: %s %s (%d of %d obligations, %d functions, %.1f s)" % (pr["status"], pr["why"], pr["discharged"], pr["obligations"], len(pr["bodied"]), pr["secs"]))
    for f in pr["failed"]:
        log("  not discharged: %s in %s%s" % (f["obligation"], f["function"], ": " + f["clause"] if f["clause"] else ""))
    vac = []
    if pr["status"] == "proved":
        vac = canary(prop, tag + "_canary")
        if vac is None:
            log("canary: no answer")
            vac = []
        elif vac:
            log("ERROR the contracts of these functions can not fail (contradictory assumptions): " + ", ".join(vac))
            return 2
    # bounded: the real code against the reference implementation
    secs = 240 if thorough else 20
    if pr["status"] == "failed":
        secs = 400 if thorough else 150
    elif pr["status"] == "undecided":
        secs = 400 if thorough else 120
    failure, stats, note = None, {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}, ""
    if ok:
        f = binchk.search if binchk else search
        failure, stats, note = f(prop, seed, secs, os.path.join(work, "search"))
        if failure is not None and not binchk and not confirm(failure, os.path.join(work, "confirm.json")):
            log("a failure which does not replay was discarded: " + failure["failure"][:200])
            failure = None
    else:
        log("the harness does not build against the current tree: " + err[-500:])
        note = "not run: the harness does not build against the current tree"
    log("bounded: %d cases, %d distinct and not trivial %s" % (stats["evaluations"], stats["distinct_nontrivial"], note))
    violation = None
    listed = [k for k in known() if k["property"] == prop and k["status"] == "open"]
    for k in listed:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if failure is not None:
        data = dict(failure)
        data["failed_obligations"] = pr["failed"]
        data["replay_with"] = "cargo build --offline --manifest-path /verif/harness/Cargo.toml && /verif/harness/target/debug/harness replay THIS_FILE" if not binchk else "python3 /verif/tools/bincheck.py replay THIS_FILE"
        violation = "VIOLATION property=%s replay=%s" % (prop, write_replay(prop, data))
        log("failing input: %s" % failure["failure"][:600])
    elif pr["status"] == "failed":
        data = {"property": prop, "failed_obligations": pr["failed"], "searched": stats["evaluations"]}
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, write_replay(prop, data))
    evidence(prop, tier, seed, t0, pr, stats, note, binchk, violation, listed)
    if violation:
        log(violation)
        return 1
    if pr["status"] != "proved" and stats["evaluations"] == 0:
        log("ERROR nothing was decided: " + pr["why"])
        return 2
    return 0


def evidence(prop, tier, seed, t0, pr, stats, note, binchk, violation, listed):
    proved = pr["status"] == "proved"
    trusted = ["Verus 0.2026.09.13 and Z3", "tools/vx: mechanical extraction and lowering of the functions of /repo (see DESIGN.md for what it rewrites and drops)",
               "shim/*.rs: %d contracts assumed on std, humphrey_json, pulldown_cmark and other dependencies" % pr.get("n_shim", 0),
               "spec/*.rs: %d axioms" % pr.get("axioms", 0)]
    trusted += ["assumed contract, body not verified: " + t for t in pr["trusted"]]
    e = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
         "coverage": {
             "obligations": max(pr["obligations"], 1 if not proved else pr["obligations"]), "discharged": pr["discharged"],
             "checker_cmd": "python3 vx.py check %s" % prop, "trusted_base": trusted,
             "evaluations": stats["evaluations"], "distinct_nontrivial": stats["distinct_nontrivial"],
             "rule": "bounded part, not counted as proved: random projects built by the real program as an unprivileged user (tools/bincheck.py), what it leaves behind compared with what the property prescribes; distinct by input" if binchk else "bounded part, not counted as proved: random cases of this property run on the real code and compared with the reference implementation in /verif/harness; a case is non-trivial when its observed part succeeded with output or failed in the way the property is about, distinct by content",
             "samples": stats["samples"],
             "explanation": "proof status: %s %s. functions verified against their contracts (back end Verus/Z3): %s. callee contracts relied on whose bodies are verified by other checks: %s. verifier wall time %.1f s, SMT time %d ms. %s" % (
                 pr["status"], pr["why"], ", ".join(pr["bodied"]), ", ".join(s for s in pr["stubs"]), pr["secs"], pr["smt_ms"], note)},
         "assumptions": ["the bounded part (tools/bincheck.py) is used only to find failing inputs" if binchk else "the harness reference implementation is used only to find failing inputs and for code not under contract"] + (["NOT PROVED on this run: " + pr["why"]] if not proved else []),
         "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if listed:
        e["assumptions"] += ["known finding: " + k["what"] for k in listed]
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
