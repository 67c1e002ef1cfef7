#!/usr/bin/env python3
"""Decides one property: check.py <property> [quick|thorough]

Builds the contracts against /repo's working tree, has the verifiers discharge the obligations,
runs the bounded stand-in, and writes evidence/<property>.json. See DESIGN.md.
"""
import json, os, re, subprocess, sys, threading, time, hashlib, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATE = os.path.join(VERIF, "contracts")
sys.path.insert(0, os.path.join(VERIF, "verus"))

def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, (out or "") + "\n[timed out]"

# ---------------------------------------------------------------- Kani

UNDECIDED = re.compile(r"unwinding assertion|not currently supported|unsupported|recursion unwinding|Kani does not support|concurrent|inline assembly|is not supported")

def kani_cmd(harnesses, timeout, extra=()):
    cmd = ["cargo", "kani", "--lib", "--exact", "--output-format=terse", "-Z", "stubbing", "-Z", "unstable-options",
           "--harness-timeout", "%ds" % timeout]
    for h in harnesses:
        cmd += ["--harness", h]
    return cmd + list(extra)

def kani_parse(out):
    """Results by harness: {status, obligations, failed, covers, unsat_covers, messages, seconds}"""
    res, thread, cur, block = {}, {}, None, []
    def close(h, block):
        t = "\n".join(block)
        r = {"status": "undecided", "obligations": 0, "failed": 0, "covers": 0, "covered": 0, "messages": [], "seconds": 0.0, "why": ""}
        m = re.search(r"\*\* (\d+) of (\d+) failed", t)
        if m:
            r["failed"], r["obligations"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", t)
        if m:
            r["covered"], r["covers"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"Verification Time: ([\d.]+)s", t)
        if m:
            r["seconds"] = float(m.group(1))
        r["messages"] = [x.strip() for x in re.findall(r"Failed Checks: (.*(?:\n File: .*)?)", t)]
        if "VERIFICATION:- SUCCESSFUL" in t:
            if r["obligations"] == 0 or r["covered"] < r["covers"]:
                r["why"] = "vacuous: %d obligations, %d of %d cover conditions reached" % (r["obligations"], r["covered"], r["covers"])
            else:
                r["status"] = "proved"
        elif "VERIFICATION:- FAILED" in t:
            real = [m for m in r["messages"] if not UNDECIDED.search(m)]
            if "CBMC timed out" in t or "CBMC failed" in t or "out of memory" in t.lower():
                r["why"] = "the solver gave no answer in time"
            elif real and not any(UNDECIDED.search(m) for m in r["messages"]):
                r["status"] = "failed"
            elif real:
                # a failed obligation next to an unwinding assertion is still a failed obligation
                r["status"] = "failed"
                r["partial"] = True
            else:
                r["why"] = "not within the verifier's reach: " + "; ".join(r["messages"])[:300]
        else:
            r["why"] = "no result"
        res[h] = r
    for line in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            thread[m.group(1)] = m.group(2)
            if m.group(1) is None:
                cur, block = m.group(2), []
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            cur, block = thread.get(m.group(1)), []
            continue
        if cur:
            block.append(line)
            if line.startswith("Verification Time") or "CBMC timed out" in line:
                close(cur, block)
                cur, block = None, []
            elif line.startswith("VERIFICATION:-") :
                close(cur, block)
    return res

def kani(harnesses, timeout, budget, target):
    cmd = kani_cmd(harnesses, timeout, ["-j", "7"] if len(harnesses) > 1 else [])
    rc, out = run(cmd, budget, CRATE, {"CARGO_TARGET_DIR": target})
    return kani_parse(out), out, " ".join(cmd)

def playback(harness, target, timeout):
    cmd = ["cargo", "kani", "--lib", "--exact", "-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print", "--harness-timeout", "%ds" % timeout, "--harness", harness]
    rc, out = run(cmd, timeout + 120, CRATE, {"CARGO_TARGET_DIR": target})
    tapes = []
    for body in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        tape = []
        for v in re.findall(r"^\s*vec!\[([^\]]*)\]", body, re.M):
            tape.append("".join("%02x" % int(x) for x in v.split(",") if x.strip()))
        tapes.append(tape)
    return tapes, out

# ---------------------------------------------------------------- main

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    meta = json.load(open(os.path.join(VERIF, "claims.json")))[prop]
    notes, viol = [], []

    # 1. the contracts, natively
    nat_target = os.path.join(BUILD, "native")
    rc, out = run(["cargo", "build", "--offline", "--bin", "contracts"], 600, CRATE, {"CARGO_TARGET_DIR": nat_target})
    if rc != 0:
        print(out[-6000:])
        print("the contracts do not build against %s" % REPO)
        return 2
    exe = os.path.join(nat_target, "debug", "contracts")
    rc, out = run([exe, "list", prop], 60)
    harnesses = json.loads(out)
    for h in harnesses:
        h["full"] = "props::%s::k::%s" % (h["module"], h["name"])
    todo = [h for h in harnesses if thorough or h["tier"] == "quick"]

    # 2. the verifiers, and next to them the bounded stand-in
    kres, kout, kcmd = {}, "", ""
    vres = None
    kani_target = os.path.join(BUILD, "kani")
    box = {}
    def do_kani():
        if todo:
            box["kani"] = kani([h["full"] for h in todo], meta.get("kani_timeout", 240) * (4 if thorough else 1),
                               meta.get("kani_budget", 600) * (6 if thorough else 1), kani_target)
    def do_verus():
        if meta.get("verus"):
            try:
                import extract
                box["verus"] = extract.decide(meta["verus"], REPO, os.path.join(BUILD, "verus"), run, thorough)
            except Exception as e:
                box["verus"] = [{"unit": u, "status": "undecided", "why": "extraction: %r" % e, "obligations": 0, "discharged": 0} for u in meta["verus"]]
    def do_native():
        secs = 1800 if thorough else meta.get("native_s", 60)
        box["native"] = run([exe, "run", prop, tier, str(seed), str(secs)], secs * 3 + 240)
    ts = [threading.Thread(target=f) for f in (do_kani, do_verus, do_native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if todo:
        kres, kout, kcmd = box["kani"]
    vres = box.get("verus", [])

    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    def replay_file(name, text):
        p = os.path.join(replay_dir, "%s-%s.txt" % (prop, re.sub(r"\W+", "_", name)[:60]))
        with open(p, "w") as f:
            f.write(text)
        return p

    # 3. the bounded stand-in
    rc, out = box["native"]
    nat = None
    m = re.search(r"^\{.*\}$", out, re.M)
    if m:
        nat = json.loads(m.group(0))
        for f in nat["failures"][:3]:
            how = ("%s tape %s %s %s" % (exe, prop, f["check"], f["tape"])) if f["tape"] else ("%s replay %s '%s' %d" % (exe, prop, f["check"], f["case"]))
            p = replay_file(f["check"], "property %s, contract '%s' fails on the real code\n\ninput: %s\n\n%s\n\nreplay: %s\n" % (prop, f["check"], f["input"], f["message"], how))
            viol.append((p, True, "%s: %s" % (f["check"], f["message"][:300])))
    else:
        # the code under test took the whole process down (abort, stack overflow, out of memory) or hangs
        last = out[-4000:]
        p = replay_file("stand-in", "property %s: running the contracts on the real code ended abnormally (exit %s)\n\n%s\n\nreplay: %s run %s %s %d 60\n" % (prop, rc, last, exe, prop, tier, seed))
        viol.append((p, True, "the contracts' run on the real code ended abnormally (exit %s)" % rc))

    # 4. failed obligations
    proved, undecided, failed = [], [], []
    for h in todo:
        r = kres.get(h["full"], {"status": "undecided", "why": "no result: " + "\n".join(re.findall(r"^error.*(?:\n.*){0,6}", kout, re.M)[:2])[:400], "obligations": 0, "failed": 0, "covers": 0, "covered": 0, "seconds": 0.0, "messages": []})
        h.update(r)
        {"proved": proved, "undecided": undecided, "failed": failed}[r["status"]].append(h)
    for h in failed:
        done = False
        text = "property %s, obligation of %s (over %s) fails:\n%s\n\n" % (prop, h["name"], h["over"], "\n".join(h["messages"]))
        if len([v for v in viol if v[1]]) < 3:
            tapes, pout = playback(h["full"], kani_target, meta.get("kani_timeout", 240))
            for tape in tapes:
                tp = ",".join(tape)
                rc, out = run([exe, "tape", prop, h["name"], tp], 120)
                if h.get("hooks"):
                    out = hook_replay(h["name"], tp) or out
                if "FAILS" in out or rc not in (0, None):
                    p = replay_file(h["name"], text + "counterexample, replayed on the real code: %s\n\nreplay: %s tape %s %s %s\n" % (out.strip()[:1000], exe, prop, h["name"], tp))
                    viol.append((p, True, "%s: %s" % (h["name"], out.strip()[:300])))
                    done = True
                    break
            else:
                text += "verifier output:\n" + pout[-6000:]
        if not done:
            p = replay_file(h["name"], text + "\nno counterexample could be replayed on the real code\n")
            viol.append((p, False, "%s: %s" % (h["name"], "; ".join(h["messages"])[:300])))
    for v in vres:
        if v["status"] == "failed":
            p = replay_file(v["unit"], "property %s, obligation of %s fails:\n%s\n" % (prop, v["unit"], v["output"][-8000:]))
            viol.append((p, False, "verus %s: %s" % (v["unit"], v["why"][:300])))

    # 5. evidence
    obligations = sum(h["obligations"] for h in todo) + sum(v["obligations"] for v in vres)
    discharged = sum(h["obligations"] - h["failed"] for h in todo if h["status"] != "undecided") + sum(v["discharged"] for v in vres)
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(([kcmd] if kcmd else []) + ["verus %s.rs --rlimit 60 (extracted from /repo by verus/extract.py)" % v["unit"] for v in vres]) or "none: bounded stand-in only",
        "trusted_base": meta["trusted_base"],
        "functions_under_contract": sorted({h["over"] for h in todo} | {f for v in vres for f in v.get("functions", [])}),
        "kani": [{k: h.get(k) for k in ("name", "scope", "over", "status", "obligations", "failed", "covers", "covered", "seconds", "why")} for h in todo],
        "verus": [{k: v.get(k) for k in ("unit", "functions", "status", "obligations", "discharged", "seconds", "why", "dropped", "assumed")} for v in vres],
        "complete_proofs": len([h for h in proved if h["scope"].startswith("complete")]) + len([v for v in vres if v["status"] == "proved"]),
        "bounded_proofs": len([h for h in proved if not h["scope"].startswith("complete")]),
        "undecided": [h["name"] + ": " + h["why"] for h in undecided] + [v["unit"] + ": " + v["why"] for v in vres if v["status"] == "undecided"],
        "solver_seconds": round(sum(h["seconds"] for h in todo) + sum(v.get("seconds", 0) for v in vres), 2),
        "explanation": meta["explanation"],
    }
    if nat:
        cov.update({
            "evaluations": nat["evaluations"], "distinct_nontrivial": nat["distinct"], "samples": nat["samples"],
            "rule": "bounded stand-in: the same contracts on concrete inputs (" + meta.get("rule", "generated and enumerated values") + "); a case counts as non-trivial if its input differs from every other one and satisfies the contract's precondition",
            "bounded_checks": nat["checks"], "rejected_by_precondition": nat["skipped"], "cut_short_by_time": nat["cut_short"],
        })
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": list(meta["assumptions"]) + ["%s: %s" % (v["unit"], a) for v in vres for a in v.get("assumed", [])], "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d complete proofs, %d bounded proofs, %d undecided; %d of %d obligations discharged; %s concrete cases; %.0f s" % (
        prop, cov["complete_proofs"], cov["bounded_proofs"], len(cov["undecided"]), discharged, obligations, nat and nat["evaluations"], time.time() - t0))
    for u in cov["undecided"]:
        print("  undecided: " + u[:300])
    if viol:
        obl = ["%s (over %s): %s" % (h["name"], h["over"], "; ".join(h["messages"])) for h in failed] + ["%s: %s" % (v["unit"], v["why"]) for v in vres if v["status"] == "failed"]
        with_input = [v for v in viol if v[1]]
        shown = {v[0]: v for v in reversed(with_input or viol)}
        for p, has, msg in shown.values():
            if obl:
                with open(p, "a") as f:
                    f.write("\nobligations the verifiers reject:\n  " + "\n  ".join(obl) + "\n")
            print("  " + msg)
            print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if has else " no-failing-input-found"))
        return 1
    return 0

def hook_replay(name, tape):
    """Harnesses over internal functions need the hooks: a native build with the guard on."""
    target = os.path.join(BUILD, "replay")
    rc, out = run(["cargo", "build", "--offline", "--bin", "contracts"], 600, CRATE, {"CARGO_TARGET_DIR": target, "RUSTFLAGS": "--cfg kani --cfg replay"})
    if rc != 0:
        return ""
    rc, out = run([os.path.join(target, "debug", "contracts"), name, tape], 120)
    return out if rc == 0 else out + "\nFAILS exit %s" % rc

def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out

if __name__ == "__main__":
    sys.exit(main())
