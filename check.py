#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] | --fingerprints

Decides one property: extracts the functions under contract from /repo, has Verus discharge their
obligations, checks that the contracts are not vacuous, and runs the real code on generated inputs to
put a concrete failing input to any failure.  See DESIGN.md for the decision rule."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CON = os.path.join(V, "contracts")
EXTRACT = os.path.join(V, "extract/target/debug/vextract")
HTARGET = os.path.join(REPO, "target")
CLI = ("A10",)
VERUS = shutil.which("verus") or "/usr/local/bin/verus"
VC_MSGS = ("postcondition not satisfied", "assertion failed", "precondition not satisfied", "invariant not satisfied",
           "possible arithmetic", "possible division", "recommendation", "decreases not satisfied", "cannot prove termination",
           "loop invariant", "unable to prove", "index out of bounds", "could not show termination", "assertion not satisfied",
           "failed this postcondition", "unreachable", "failed precondition", "possible bit shift", "ensures not satisfied", "termination")


def sh(cmd, env=None, timeout=900, cwd=None):
    e = dict(os.environ)
    e.pop("VEXTRACT_VACUITY", None)
    e.pop("VEXTRACT_TRUST", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode("utf8", "replace") if isinstance(t.stdout, bytes) else (t.stdout or ""), "timeout"


def build_extractor():
    return sh(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(V, "extract"), env={"CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": ""})


def build_harness(pid):
    env = {"RUSTUP_TOOLCHAIN": "1.96.1", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
           "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": HTARGET}
    rc, o, e = sh(["cargo", "build", "--offline", "--features", pid.lower()], cwd=os.path.join(V, "harness"), env=env, timeout=700)
    if rc == 0 and pid in CLI:
        # the search of this property runs the program itself
        os.makedirs(os.path.join(REPO, "ui/dist"), exist_ok=True)
        rc, o, e = sh(["cargo", "build", "--workspace", "--bin", "weaver", "--offline", "--locked"], cwd=REPO, env=env, timeout=700)
    return rc, e


class Unit:
    """one Verus file extracted from /repo"""

    def __init__(self, path, work):
        self.path, self.name, self.work = path, os.path.basename(path)[:-4], work
        self.trust = []
        self.notes = []

    def extract(self, suffix="", vac=False):
        rs, js = os.path.join(self.work, self.name + suffix + ".rs"), os.path.join(self.work, self.name + suffix + ".json")
        env = {"VEXTRACT_TRUST": ",".join(self.trust)}
        if vac:
            env["VEXTRACT_VACUITY"] = "1"
        rc, o, e = sh([EXTRACT, REPO, CON, self.path, rs, js], env=env)
        if rc != 0:
            return None, None, (o + e)[-2000:]
        return rs, json.load(open(js)), ""

    def regions(self, rs):
        out, cur = [], None
        for n, l in enumerate(open(rs).read().split("\n"), 1):
            if l.startswith("// VFN-BEGIN "):
                cur = (l[len("// VFN-BEGIN "):].strip(), n)
            elif l.startswith("// VFN-END") and cur:
                out.append((cur[0], cur[1], n))
                cur = None
        return out

    def verus(self, rs, rlimit, threads, extra=()):
        t0 = time.time()
        rc, o, e = sh([VERUS, rs, "--error-format=json", "--output-json", "--time-expanded", "--triggers-mode", "silent", "--rlimit", str(rlimit),
                       "--num-threads", str(threads), "--multiple-errors", "3", *extra], timeout=600, cwd=self.work)
        regs = self.regions(rs)
        diags = []
        for l in e.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or d.get("message", "").startswith("aborting due to"):
                continue
            fn = None
            sp = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
            cands = []
            for s in sp:
                for (f, a, b) in regs:
                    if a <= s["line_start"] <= b and s["file_name"].endswith(os.path.basename(rs)):
                        cands.append(f)
            # a failed postcondition names the clause and the exit: both in the function
            fn = cands[0] if cands else None
            msg = d.get("message", "")
            kind = "rlimit" if "rlimit" in msg or "Resource limit" in msg else ("rustc" if d.get("code") else ("vc" if any(m in msg for m in VC_MSGS) else "other"))
            if msg.startswith("precondition not satisfied") and len(cands) > 1:
                fn = cands[0]
            diags.append({"fn": fn, "kind": kind, "msg": msg, "rendered": (d.get("rendered") or "")[:3000], "text": [(s.get("text") or [{}])[0].get("text", "").strip() for s in sp][:4]})
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            j = {}
        vr = j.get("verification-results") or {}
        return {"rc": rc, "verified": vr.get("verified", 0) or 0, "errors": vr.get("errors", 0) or 0, "vir": bool(vr.get("encountered-vir-error")) or not vr,
                "ok": rc == 0 and vr.get("success", False), "diags": diags, "smt_ms": smt_ms(j), "wall": time.time() - t0, "timeout": rc == 124, "raw_err": e[-1500:] if not diags and rc else ""}

    def retry(self, rs, res, threads):
        """a function that fails may only have sent the solver astray: it is proved if the solver proves it from another seed"""
        bad = {d["fn"] for d in res["diags"]}
        if not bad or res["timeout"] or any(d["kind"] not in ("vc", "rlimit") for d in res["diags"]):
            return res
        with cf.ThreadPoolExecutor(3) as ex:
            runs = list(ex.map(lambda s: self.verus(rs, 30, 2, ("--smt-option", "smt.random_seed=%d" % s)), (1, 2, 3)))
        runs = [r for r in runs if not r["vir"] and not r["timeout"] and all(d["kind"] in ("vc", "rlimit") for d in r["diags"])]
        for f in sorted(bad, key=str):
            alt = [[d for d in r["diags"] if d["fn"] == f] for r in runs]
            mine = [d for d in res["diags"] if d["fn"] == f]
            if any(not a for a in alt):
                res["diags"] = [d for d in res["diags"] if d["fn"] != f]
                res["errors"] -= 1
                res["verified"] += 1
                self.notes.append("%s: proved from another solver seed" % f)
            elif any(d["kind"] == "rlimit" for d in mine):
                better = [a for a in alt if all(d["kind"] == "vc" for d in a)]
                if better:
                    res["diags"] = [d for d in res["diags"] if d["fn"] != f] + better[0]
        if not res["diags"]:
            res["ok"] = True
        return res

    def run(self, threads):
        """extract and verify; a function Verus cannot take is put aside (its contract assumed) and the rest re-run"""
        for _ in range(5):
            rs, rep, err = self.extract()
            if rs is None:
                return {"state": "undecided", "why": ["extractor: " + err], "rep": None, "res": None, "vac": None}
            lost = [e for e in rep["errors"]]
            if lost:
                self.notes += ["extraction: %s %s: %s" % (e["kind"], e["what"], e["msg"]) for e in lost]
            res = self.retry(rs, self.verus(rs, 60, threads), threads)
            if res["ok"]:
                break
            if res["vir"] or any(d["kind"] in ("rustc", "other") for d in res["diags"]):
                bad = sorted({d["fn"] for d in res["diags"] if d["fn"] and d["kind"] in ("rustc", "other", "vc")} - set(self.trust))
                outside = [d for d in res["diags"] if not d["fn"]]
                if bad and not res["timeout"]:
                    for d in res["diags"]:
                        self.notes.append("outside the verifier's reach: %s: %s" % (d["fn"], d["msg"][:200]))
                    self.trust += bad
                    continue
                return {"state": "undecided", "why": ["%s: %s" % (d["fn"], d["msg"][:300]) for d in (outside or res["diags"])] or [res["raw_err"] or "verus gave no result"], "rep": rep, "res": res, "vac": None}
            break
        vac = self.vacuity(rep, threads) if res["ok"] else None
        return {"state": "ok" if res["ok"] and not lost else "fail", "why": [], "rep": rep, "res": res, "vac": vac, "lost": lost, "rs": rs}

    def vacuity(self, rep, threads):
        rs, _, _ = self.extract("_vac", vac=True)
        if rs is None:
            return {"ok": False, "missing": ["extraction"]}
        res = self.verus(rs, 20, threads)
        failed = {d["fn"] for d in res["diags"] if d["fn"]}
        want = {f["fn"] for f in rep["functions"] if not f.get("trusted")}
        return {"ok": want <= failed, "functions": len(want), "refuted": len(want & failed), "missing": sorted(want - failed), "wall": res["wall"]}


def smt_ms(j):
    try:
        return j["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        return 0


def trusted_base(rs_path):
    """assumed contracts in the verified text, by name"""
    t = open(rs_path).read()
    out = []
    for m in re.finditer(r"external_body\]\s*(?:pub )?(?:proof )?(fn|struct)\s+(\w+)", t):
        out.append(m.group(1) + " " + m.group(2))
    n_assume = len(re.findall(r"\b(?:assume|admit)\s*\(", t))
    return sorted(set(out)), n_assume


def load_findings():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def fingerprints(rep):
    return {f["fn"]: {"hash": f["tokens_hash"], "loops": f["loops"], "file": f["file"]} for f in rep["functions"]}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--fingerprints":
        build_extractor()
        out = {}
        with tempfile.TemporaryDirectory(prefix="vchk") as w:
            for p in sorted(glob.glob(os.path.join(CON, "A*.vrs"))):
                u = Unit(p, w)
                _, rep, err = u.extract()
                assert rep and not rep["errors"], (p, err, rep and rep["errors"])
                out[u.name] = fingerprints(rep)
        json.dump(out, open(os.path.join(CON, "fingerprints.json"), "w"), indent=1, sort_keys=True)
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = float(os.environ.get("VERIF_SECS", "0")) or (20.0 if tier == "quick" else 400.0)
    t0 = time.time()
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
    try:
        return decide(pid, tier, seed, secs, t0, ev_dir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, secs, t0, ev_dir, work):
    units = [Unit(p, work) for p in sorted(glob.glob(os.path.join(CON, pid + ".vrs")) + glob.glob(os.path.join(CON, pid + "_*.vrs")))]
    base = json.load(open(os.path.join(CON, "fingerprints.json")))
    results = {}

    def prove():
        rc, o, e = build_extractor()
        if rc != 0:
            return {u.name: {"state": "undecided", "why": ["extractor does not build: " + e[-800:]], "rep": None, "res": None, "vac": None} for u in units}
        if not units:
            return {}
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            th = max(2, 8 // max(1, len(units)))
            return dict(zip([u.name for u in units], ex.map(lambda u: u.run(th), units)))

    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        fh = ex.submit(build_harness, pid)
        fp = ex.submit(prove)
        hrc, herr = fh.result()
        results = fp.result()

    # ---- the proof's verdict
    failed, undecided = [], []
    for u in units:
        r = results[u.name]
        b = base.get(u.name, {})
        for w in r["why"]:
            undecided.append({"unit": u.name, "fn": None, "why": w})
        for n in u.notes:
            undecided.append({"unit": u.name, "fn": None, "why": n})
        for f in u.trust:
            undecided.append({"unit": u.name, "fn": f, "why": "the function left the verifier's subset; its contract was assumed for its callers"})
        if r["state"] == "fail" and r["res"] and not r["res"]["ok"]:
            now = fingerprints(r["rep"])
            for d in r["res"]["diags"]:
                f = d["fn"]
                if d["kind"] == "rlimit" or r["res"]["timeout"]:
                    undecided.append({"unit": u.name, "fn": f, "why": "resource limit: " + d["msg"]})
                elif f and now.get(f, {}).get("loops") != b.get(f, {}).get("loops"):
                    undecided.append({"unit": u.name, "fn": f, "why": "the loops of the function are not the ones its invariants were written for (%s, were %s): %s" % (now.get(f, {}).get("loops"), b.get(f, {}).get("loops"), d["msg"])})
                elif r["lost"]:
                    undecided.append({"unit": u.name, "fn": f, "why": "an anchor is lost: " + d["msg"]})
                else:
                    failed.append({"unit": u.name, "fn": f or "(lemma)", "msg": d["msg"], "clause": d["text"], "rendered": d["rendered"]})
            if not r["res"]["diags"]:
                undecided.append({"unit": u.name, "fn": None, "why": "verus: " + (r["res"]["raw_err"] or "no diagnostics")[:400]})
        if r["vac"] and not r["vac"]["ok"]:
            undecided.append({"unit": u.name, "fn": None, "why": "vacuous: assert(false) is provable in " + ", ".join(r["vac"]["missing"])})

    # ---- the bounded search on the real code
    h = None
    fails = []
    if hrc == 0:
        budget = secs
        if failed or undecided:
            budget = max(secs, 90.0)
        outf = os.path.join(work, "h.json")
        rc, o, e = sh([os.path.join(HTARGET, "debug/vharness"), pid, "--seed", str(seed), "--secs", str(budget), "--out", outf], timeout=budget + 240)
        if os.path.exists(outf):
            h = json.load(open(outf))
            fails = h["failures"]
        elif rc == 124:
            herr = "the search did not finish: a case hangs"
        else:
            herr = "the search ended with %d: %s" % (rc, (o + e)[-600:])
    known = [k for k in load_findings() if k["property"] == pid and k.get("status") == "known"]
    known_hit, new_fails = [], []
    for f in fails:
        k = next((k for k in known if k["suite"] == f["suite"] and re.search(k["message"], f["message"])), None)
        (known_hit if k else new_fails).append((f, k))

    violations = []
    rdir = os.path.join(ev_dir, "replay")
    for old in glob.glob(os.path.join(rdir, pid + "-*.json")):
        os.remove(old)
    if new_fails:
        f = new_fails[0][0]
        p = os.path.join(rdir, pid + "-input.json")
        json.dump({"property": pid, "failing_input": f, "failed_obligations": failed, "replay_cmd": "cd /verif && python3 replay.py " + p}, open(p, "w"), indent=1)
        violations.append("VIOLATION property=%s replay=%s" % (pid, p))
    elif failed:
        p = os.path.join(rdir, pid + "-obligation.json")
        json.dump({"property": pid, "failed_obligations": failed, "searched": h}, open(p, "w"), indent=1)
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))

    # ---- evidence
    oblig = sum((r["res"]["verified"] + r["res"]["errors"]) if r["res"] else 0 for r in results.values())
    disch = sum(r["res"]["verified"] if r["res"] else 0 for r in results.values())
    fns, tb, n_assume, opaque, rewrites = [], set(), 0, set(), {}
    for u in units:
        r = results[u.name]
        if not r["rep"]:
            continue
        for f in r["rep"]["functions"]:
            fns.append("%s:%d-%d %s%s%s" % (f["file"], f["lines"][0], f["lines"][1], f["fn"], " [inlined: %s]" % ", ".join(f["inlined"]) if f["inlined"] else "", " [ASSUMED: left the subset]" if f.get("trusted") else ""))
            for k, n in f["rewrites"].items():
                rewrites[k] = rewrites.get(k, 0) + n
        opaque |= set(r["rep"]["opaque"])
        rsf = os.path.join(work, u.name + ".rs")
        if os.path.exists(rsf):
            t, n = trusted_base(rsf)
            tb |= set(t)
            n_assume += n
    n_units_ok = sum(1 for r in results.values() if r["state"] == "ok")
    proved = n_units_ok == len(units) and bool(units) and not undecided
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof" if proved or failed else "exploration",
        "coverage": {
            "obligations": oblig, "discharged": disch,
            "checker_cmd": "verus <unit>.rs --rlimit 60 (Z3 back end), unit extracted by vextract from %s on this run" % REPO,
            "trusted_base": sorted(tb) + ["opaque types: " + ", ".join(sorted(opaque))] + ["assume/admit statements in the verified text: %d" % n_assume],
            "functions_under_contract": fns,
            "extraction_rewrites": rewrites,
            "units": {u.name: {"state": results[u.name]["state"], "verified": results[u.name]["res"]["verified"] if results[u.name]["res"] else 0,
                               "smt_ms": results[u.name]["res"]["smt_ms"] if results[u.name]["res"] else 0,
                               "wall_s": round(results[u.name]["res"]["wall"], 2) if results[u.name]["res"] else 0,
                               "vacuity": results[u.name]["vac"]} for u in units},
            "bounded_search_on_the_real_code": {"label": "bounded: sampled and enumerated inputs, never counted as proved", "built": hrc == 0,
                                                "suites": h["suites"] if h else [], "note": "" if h else herr[-800:]},
            "decided_by": "proof" if proved or failed else "bounded search (the proof is undecided on this tree)",
            "undecided": undecided, "failed_obligations": failed,
        },
        "assumptions": ["contracts of std operations in contracts/prelude.vrs (external_body) hold of the real std", "the extraction rewrites (DESIGN.md, Extraction) preserve meaning",
                        "Clone and PartialEq derived on the extracted types are structural", "iteration order of hashed collections is arbitrary but without repetition", "Verus and Z3 are sound"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(evid, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)

    for f, k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for u in undecided:
        print("undecided: %s %s: %s" % (u["unit"], u["fn"] or "", u["why"][:300]))
    for f in failed:
        print("failed obligation: %s %s: %s | %s" % (f["unit"], f["fn"], f["msg"], " | ".join(f["clause"])[:300]))
    if new_fails:
        print("failing input: %s" % json.dumps(new_fails[0][0])[:1500])
    for v in violations:
        print(v)
    if violations:
        return 1
    if h is None and (undecided or not units):
        print("no answer: the proof is undecided and the search did not run: " + herr[-1500:])
        return 2
    print("property=%s held: %d/%d obligations discharged over %d functions; search: %s; %.0f s" % (
        pid, disch, oblig, len(fns), ", ".join("%s %d" % (s["suite"], s["cases"]) for s in h["suites"]) if h else "not run (%s)" % herr[-300:], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
