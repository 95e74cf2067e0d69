#!/usr/bin/env python3
"""check.py ID            quick or thorough check (VERIF_TIER) of one property, see DESIGN.md
   check.py --setup       build the tools
   check.py --repin       (maintenance) rewrite pins/ from /repo's current tree
"""
import json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SRC = REPO + "/src"
B = V + "/build"
VX = V + "/vx/target/debug/vx"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
CFG = json.load(open(V + "/checks.json"))


def sh(cmd, timeout, env=ENV, cwd=V):
    """run a command in its own process group; returns (rc or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def build_vx():
    return sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", V + "/vx/Cargo.toml"], 400)


def build_replay(b):
    return sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", V + "/replay/Cargo.toml", "--bin", b], 400)


def expand(out):
    env = dict(ENV, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=B + "/exp")
    rc, o, e = sh(["cargo", "rustc", "--quiet", "--manifest-path", REPO + "/Cargo.toml", "--offline", "--lib", "--", "-Zunpretty=expanded"], 200, env=env)
    if rc != 0:
        return False, e[-2000:]
    open(out, "w").write(o)
    return True, ""


TRUST = [
    (r"\bassume_specification\b[^\[]*\[([^\]]*)\]", "assumed contract of a std function: %s"),
    (r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub )?(?:broadcast )?(?:proof |exec )?(?:fn|struct)\s+\w+)", "trusted (external_body): %s"),
    (r"\b(axiom fn\s+\w+)", "axiom: %s"),
    (r"\b(assume\s*\([^;]*\));", "assumption: %s"),
    (r"\b(admit\s*\(\s*\))", "admitted: %s"),
    (r"(exec_allows_no_decreases_clause)", "termination not proved (%s)"),
    (r"#\[verifier::external(?:_type_specification|_trait_specification)?\]\s*(?:#\[[^\]]*\]\s*)*((?:pub )?(?:struct|trait|enum|fn)\s+\w+)", "external item: %s"),
]


def strip_comments(t):
    return re.sub(r"//[^\n]*", "", t)


class Unit:
    """one extracted Verus file"""

    def __init__(self, name, pid):
        self.name, self.pid = name, pid
        self.out, self.rep = f"{B}/{pid}_{name}.rs", f"{B}/{pid}_{name}.json"
        self.cout, self.crep = f"{B}/{pid}_{name}_canary.rs", f"{B}/{pid}_{name}_canary.json"
        self.problems = []      # reasons why nothing was decided
        self.failed = []        # failed obligations
        self.notes = []         # annotations that found no place; they matter only if a proof fails
        self.fns, self.verified, self.errors, self.smt_ms, self.breakdown, self.trusted, self.canary = [], 0, 0, 0, [], [], []
        self.cmd = ""
        self.adrift = set()     # functions that lost an annotation or whose loops carry new state: a failed obligation there says nothing
        self.raw = ""

    def gen(self, exp):
        for out, rep, extra in ((self.out, self.rep, []), (self.cout, self.crep, ["--canary"])):
            cmd = [VX, "gen", "--src", SRC] + (["--expanded", exp] if exp else []) + ["--unit", f"{V}/units/{self.name}.vx", "--pins", f"{V}/pins/{self.name}.tsv", "--out", out, "--report", rep] + extra
            rc, o, e = sh(cmd, 60)
            if rc != 0:
                self.problems.append("extraction failed: " + (o + e)[-1500:])
                return False
        r = json.load(open(self.rep))
        self.fns = r["fns"]
        self.problems += ["extraction: " + str(x) for x in r["fatal"]]
        for f in self.fns:
            if f["missing"]:
                self.problems.append(f"extraction: {f['key']}: {f['missing']}")
            if f["lost"] or f["carries"]:
                self.adrift.add(f["key"])
            # contracts are always attached; a proof that goes through without a lost hint or invariant is a proof
            for l in f["lost"]:
                self.notes.append(f"extraction: {f['key']}: annotation anchor lost: {l}")
            for l in f["carries"]:
                self.notes.append(f"extraction: {f['key']}: its loops now carry `{l}`")
        src = strip_comments(open(self.out).read())
        for rx, msg in TRUST:
            for m in re.finditer(rx, src):
                if "assume_specification" in rx:
                    # reported only if the extracted text calls it (the shared header declares a few for all units)
                    name = re.split(r"::", re.sub(r"::<[^<>]*>\s*$|\s", "", m.group(1)))[-1]
                    if len(re.findall(r"\b%s\b" % re.escape(name), re.sub(r"assume_specification\b[^\[]*\[[^\]]*\]", "", src))) == 0:
                        continue
                self.trusted.append(msg % re.sub(r"\s+", " ", m.group(1))[:120])
        self.trusted = sorted(set(self.trusted))
        return True

    def fn_at(self, line):
        for f in self.fns:
            if f["begin"] and f["begin"] <= line <= f["end"]:
                return f["key"]
        return None

    def verify(self, rlimit, timeout, threads, opts=()):
        self.cmd = f"verus {os.path.basename(self.out)} --rlimit {rlimit} --multiple-errors 4" + "".join(" " + o for o in opts)
        cmd = ["verus", self.out, "--rlimit", str(rlimit), "--num-threads", str(threads), "--multiple-errors", "4", "--no-report-long-running", "--output-json", "--time-expanded", "--error-format=json", *opts]
        rc, o, e = sh(cmd, timeout, cwd=B)
        if rc is None and not opts:
            # no answer at all (the solver ran away): once more with another seed
            rc, o, e = sh(cmd + ["--smt-option", "smt.random_seed=7"], timeout, cwd=B)
            self.cmd += " --smt-option smt.random_seed=7"
        self.raw = e
        if rc is None:
            self.problems.append(f"the verifier gave no answer within {timeout} s")
            return
        try:
            d = json.loads(o[o.index("{"):])
        except Exception:
            d = {}
        vr = d.get("verification-results", {})
        self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
        for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            self.smt_ms += m.get("time", 0)
            self.breakdown += m.get("function-breakdown", [])
        diags = []
        for l in e.splitlines():
            try:
                x = json.loads(l)
            except Exception:
                continue
            if x.get("level") == "error" and "aborting due to" not in x["message"]:
                diags.append(x)
        soft = ("rlimit", "Resource limit", "timed out", "could not be determined", "Verus Internal", "not supported", "The verifier does not yet support", "unexpected SMT output", "solver")
        for x in diags:
            line = next((s["line_start"] for s in x["spans"] if s["is_primary"]), 0)
            fn = next((self.fn_at(s["line_start"]) for s in x["spans"] if self.fn_at(s["line_start"])), None)
            text = "; ".join(f"{s['line_start']}: " + " ".join(t["text"].strip() for t in s["text"][:2])[:160] + (f" [{s['label']}]" if s.get("label") else "") for s in x["spans"][:3])
            item = dict(message=x["message"], function=fn or "(lemma)", at=text)
            if vr.get("encountered-vir-error") or "success" not in vr or (self.errors == 0) or any(s in x["message"] for s in soft):
                self.problems.append(f"not decided: {item['message'][:300]} in {item['function']} ({text[:300]})")
            elif fn in self.adrift:
                self.problems.append(f"not decided: {item['message'][:300]} in {item['function']}, whose annotations no longer fit ({text[:300]})")
            else:
                self.failed.append(item)
        if self.problems:
            self.problems += self.notes
        if not vr.get("success") and not self.failed and not self.problems:
            self.problems.append("the verifier ended without a result: " + e[-800:])

    def retry(self, exp, rlimit, timeout, threads):
        """changed functions whose proof did not go through: once more with their loops seeing everything known before
        them, and once more with a larger solver budget and another solver seed; any attempt that is accepted is a proof"""
        if not (self.failed or self.problems) or not any(f["changed"] for f in self.fns) or any(f["missing"] for f in self.fns):
            return
        tries = []
        flat, rep = self.out[:-3] + "_flat.rs", self.rep[:-5] + "_flat.json"
        cmd = [VX, "gen", "--src", SRC] + (["--expanded", exp] if exp else []) + ["--unit", f"{V}/units/{self.name}.vx", "--pins", f"{V}/pins/{self.name}.tsv", "--out", flat, "--report", rep, "--flat"]
        if sh(cmd, 60)[0] == 0 and open(flat).read() != open(self.out).read():
            tries.append((flat, rep, [], "loop isolation is off in the changed functions"))
        if self.verified:
            tries.append((self.out, self.rep, ["--smt-option", "smt.random_seed=11"], "second solver seed, larger budget"))
        for out, rep, opts, note in tries:
            t = Unit(self.name, self.pid)
            t.out, t.rep, t.adrift = out, rep, self.adrift
            t.fns = json.load(open(rep))["fns"]
            t.verify(3 * rlimit, timeout, threads, opts)
            self.smt_ms += t.smt_ms
            if not t.failed and not t.problems:
                self.failed, self.problems = [], []
                self.verified, self.errors, self.breakdown, self.cmd = t.verified, t.errors, t.breakdown, t.cmd
                self.notes.append(note)
                return

    def check_canary(self, rlimit, timeout, threads):
        r = json.load(open(self.crep))
        cmd = ["verus", self.cout, "--rlimit", str(rlimit), "--num-threads", str(threads), "--multiple-errors", "0", "--no-report-long-running", "--output-json", "--error-format=json"]
        rc, o, e = sh(cmd, timeout, cwd=B)
        if rc is None:
            rc, o, e = sh(cmd + ["--smt-option", "smt.random_seed=7"], timeout, cwd=B)
        if rc is None:
            self.problems.append("the vacuity canary gave no answer")
            return
        bad = set()
        for l in e.splitlines():
            try:
                x = json.loads(l)
            except Exception:
                continue
            if x.get("level") == "error":
                for s in x["spans"]:
                    for f in r["fns"]:
                        if f["begin"] and f["begin"] <= s["line_start"] <= f["end"]:
                            bad.add(f["key"])
        for f in r["fns"]:
            if not f.get("contract_only"):
                self.canary.append((f["key"], f["key"] in bad))


def search(b, seed, ms, workers):
    rc, o, e = sh([f"{V}/replay/target/debug/{b}", "search", str(seed), str(ms), str(workers)], ms / 1000 + 120)
    m = re.search(r"^CASES (\d+)", o, re.M)
    n = int(m.group(1)) if m else 0
    if rc == 1 and o.startswith("FAIL "):
        return n, o
    return n, None


def main():
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    if sys.argv[1] == "--setup":
        a, b = build_vx(), sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", V + "/replay/Cargo.toml"], 900)
        print(a[2], b[2])
        sys.exit(0 if a[0] == 0 else 1)
    if sys.argv[1] == "--repin":
        build_vx()
        os.makedirs(V + "/pins", exist_ok=True)
        ok, err = expand(B + "/pin_expanded.rs")
        for u in sorted({u for c in CFG.values() for u in c["units"]}):
            rc, o, e = sh([VX, "pin", "--src", SRC, "--expanded", B + "/pin_expanded.rs", "--pins", f"{V}/pins/{u}.tsv", f"{V}/units/{u}.vx"], 60)
            print(u, rc, (o + e)[-300:])
        sys.exit(0)
    pid = sys.argv[1]
    cfg = CFG[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deep = tier == "thorough"
    rlimit = cfg.get("rlimit", 30) * (3 if deep else 1)
    units = [Unit(u, pid) for u in cfg["units"]]
    short, long = (60000, 240000) if deep else (cfg.get("short_ms", 6000), cfg.get("long_ms", 100000))
    hb = cfg["replay"]
    H = dict(built=False, cases=0, out=None, err="")

    def harness():
        rc, o, e = build_replay(hb)
        H["built"] = rc == 0
        H["err"] = e[-1500:]
        if H["built"]:
            H["cases"], H["out"] = search(hb, seed, short, 4)

    def proof():
        rc, o, e = build_vx()
        if rc != 0:
            for u in units:
                u.problems.append("the extraction tool does not build: " + e[-800:])
            return
        exp = None
        if cfg.get("expanded"):
            exp = f"{B}/{pid}.expanded.rs"
            ok, err = expand(exp)
            if not ok:
                for u in units:
                    u.problems.append("macro expansion failed: " + err)
                return
        for u in units:
            if u.gen(exp):
                th = threading.Thread(target=u.check_canary, args=(rlimit, 600 if deep else 120, 2))
                th.start()
                u.verify(rlimit, 600 if deep else cfg.get("timeout", 170), 6)
                th.join()
                u.retry(exp, rlimit, 120, 8)

    ht = threading.Thread(target=harness)
    ht.start()
    try:
        proof()
    except Exception as ex:
        units[0].problems.append(f"driver error: {ex!r}")
    ht.join()
    failed = [dict(f, unit=u.name) for u in units for f in u.failed]
    problems = [p for u in units for p in u.problems]
    vac = [k for u in units for k, ok in u.canary if not ok]
    if vac and not failed and not problems:
        problems.append("vacuity canary: contracts of " + ", ".join(vac) + " are contradictory")
    proved = not failed and not problems
    # an undecided or failed proof is followed by a longer search for a concrete failing input on the real code
    if not proved and H["built"] and not H["out"]:
        n, H["out"] = search(hb, seed + 7, long, 8)
        H["cases"] += n
    viol = bool(H["out"]) or bool(failed)
    fnlist = []
    for u in units:
        for f in u.fns:
            fnlist.append(f["key"] + ("" if not f["changed"] else "  (differs from the pinned text)"))
    trusted = sorted({t for u in units for t in u.trusted}) + cfg.get("assumptions", [])
    smt = sum(u.smt_ms for u in units)
    obl = sum(u.verified + u.errors for u in units)
    coverage = dict(
        obligations=obl, discharged=sum(u.verified for u in units),
        checker_cmd="; ".join(u.cmd for u in units) + "  (Verus " + "0.2026.09.13, Z3 back end; bit-vector obligations by Z3's bit-vector solver)",
        trusted_base=trusted,
        functions_under_contract=fnlist,
        functions_checked=[dict(function=b["function"], mode=b.get("mode:"), ok=b.get("success"), ms=b.get("time")) for u in units for b in u.breakdown],
        solver_ms=smt,
        vacuity_canaries=dict(run=sum(len(u.canary) for u in units), failed_as_they_must=sum(1 for u in units for c in u.canary if c[1])),
        extraction=[dict(function=f["key"], rules_applied=f["drops"]) for u in units for f in u.fns if f["drops"]],
        proof_status="every obligation discharged" if proved else ("failed obligations" if failed else "NOT DECIDED by proof on this tree; only the bounded search below ran"),
        failed_obligations=failed, undecided=problems[:20], annotations_without_a_place=[n for u in units for n in u.notes][:20],
        bounded_supplement=dict(what="the compiled library run against a naive oracle on generated inputs; a bounded check that is not counted as proof", cases=H["cases"], harness_built=H["built"]),
    )
    level = cfg.get("level", "proof")
    if not proved and not viol:
        level = "other"
        coverage["explanation"] = "The proof could not be redone on this tree (see undecided); a bounded search of the compiled code for violations ran instead and found none. Nothing is claimed as proved by this run."
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=trusted, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"open: property=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            print(f"KNOWN-FINDING: property={pid} {m.group(2)}")
    for u in units:
        print(f"{pid} unit {u.name}: {u.verified} obligations discharged, {u.errors} failed, {len(u.fns)} functions under contract, solver {u.smt_ms} ms")
    for p in problems[:10]:
        print("undecided:", p[:500])
    for f in failed[:10]:
        print(f"failed obligation: {f['message']} in {f['function']} at {f['at']}"[:600])
    print(f"{pid} bounded supplement: {H['cases']} cases", "" if H["built"] else "(harness did not build: %s)" % H["err"][-300:])
    if viol:
        os.makedirs(V + "/replays", exist_ok=True)
        rp = f"{V}/replays/{pid}.txt"
        with open(rp, "w") as fo:
            fo.write(f"property {pid}\n")
            if H["out"]:
                case = H["out"].split()[1]
                fo.write(f"failing input on the real code (rebuild and rerun: cargo build --offline --manifest-path {V}/replay/Cargo.toml --bin {hb} && {V}/replay/target/debug/{hb} run {case}):\n{H['out']}\n")
            for f in failed:
                fo.write(f"failed obligation: {f['message']}\n  function: {f['function']}\n  at: {f['at']}\n")
            for u in units:
                if u.failed:
                    fo.write("\nverifier output:\n")
                    for l in u.raw.splitlines():
                        try:
                            fo.write(json.loads(l).get("rendered") or "")
                        except Exception:
                            pass
        print(f"VIOLATION property={pid} replay={rp}" + ("" if H["out"] else " no-failing-input-found"))
        sys.exit(1)
    print(f"{pid}: " + ("proved" if proved else "not decided by proof; bounded search found no violation"))
    sys.exit(0)


if __name__ == "__main__":
    main()
