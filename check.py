#!/usr/bin/env python3
"""Decides one property of /repo's current tree.

  check.py ID          quick or thorough by VERIF_TIER
  check.py --setup     builds everything once

Deciding step: the contracts in contracts/*.vc are joined with the functions of /repo they belong to
(extracted mechanically on every run) and Verus has to discharge every obligation. Next to it the
executable form of the contracts runs against the compiled code of /repo (bounded), which also says
whether a failed obligation has a concrete failing input.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, threading, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import literals

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
LEVEL = "proof"
T0 = time.time()
WEB = {"C18"}
LIST = {"C20"}
NEEDS_CLI = {"C08", "C09", "C12", "C13", "C16"}
# How many times the base number of bounded cases a quick run makes.
QUICK = {"C12": 2, "C13": 1, "C14": 2, "C16": 2, "C20": 1}

# Messages of Verus that mean an obligation was generated and not discharged.
OBLIGATION = re.compile(r"^(postcondition not satisfied|precondition not satisfied|assertion failed|"
                        r"invariant not satisfied|possible arithmetic (overflow|underflow)|possible division by zero|"
                        r"possible bit shift|decreases not satisfied|could not prove termination|"
                        r"possible array index|split (precondition|postcondition|assertion|invariant)|"
                        r"unreachable|loop invariant not satisfied|cannot prove)")


def env(extra=None, tc="1.80.0"):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": tc, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC", "SWC_FACTS_DIR"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def sh(cmd, cwd=None, e=None, timeout=800):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, err = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        # with the solvers it started
        os.killpg(p.pid, signal.SIGKILL)
        o, err = p.communicate()
        return "timeout", o.decode("utf8", "replace"), err.decode("utf8", "replace")


class Lost(Exception):
    """The proof (or the replay) cannot be carried out on this tree; says nothing about the property."""


def cargo(what, args, cwd, target, extra=None, tc="1.80.0"):
    e = env({"CARGO_TARGET_DIR": os.path.join(B, target), **(extra or {})}, tc)
    os.makedirs(os.path.join(B, target), exist_ok=True)
    with open(os.path.join(B, target + ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        rc, o, err = sh(["cargo"] + args, cwd, e)
    if rc != 0:
        raise Lost(f"building {what} failed: " + tail_errors(err))
    return err


def tail_errors(err):
    ls = [l for l in err.splitlines() if l.startswith("error") or l.strip().startswith("-->")]
    return " | ".join(ls[:6]) or err[-300:]


def build_extractor():
    cargo("the extractor", ["build", "--offline", "-q"], f"{V}/extractor", "extractor")
    return f"{B}/extractor/debug/swc-extract"


def build_facts(web=False):
    cargo("the facts driver", ["build", "--offline", "-q"], f"{V}/driver", "driver", tc="nightly")
    rc, root, err = sh(["rustc", "--print", "sysroot"], e=env(tc="nightly"))
    root = root.strip()
    facts = f"{B}/facts"
    os.makedirs(facts, exist_ok=True)
    # cargo must run the driver again even if it believes the sources are unchanged
    fp = f"{B}/factst/debug/.fingerprint"
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("subweight"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    for f in os.listdir(facts):
        os.remove(os.path.join(facts, f))
    cargo("the type facts of /repo", ["check", "--offline", "-q", "-p", "subweight-core", "--lib", "-p", "subweight", "--bins"] + (["-p", "subweight-web"] if web else []), REPO, "factst",
          {"LD_LIBRARY_PATH": f"{root}/lib", "RUSTC": f"{root}/bin/rustc", "SWC_FACTS_DIR": facts,
           "RUSTC_WORKSPACE_WRAPPER": f"{B}/driver/debug/swc-facts"})
    return facts


class Job(threading.Thread):
    def __init__(self, f, *a):
        super().__init__(daemon=True)
        self.f, self.a, self.r, self.x = f, a, None, None
        self.start()

    def run(self):
        try:
            self.r = self.f(*self.a)
        except Lost as x:
            self.x = str(x)
        except Exception as x:  # a fault of this script
            self.x = f"internal: {type(x).__name__}: {x}"

    def get(self):
        self.join()
        if self.x is not None:
            raise Lost(self.x)
        return self.r


# ---------------------------------------------------------------- proof

def verus_run(path, timeout, extra=()):
    t = time.time()
    cmd = ["verus", "--crate-type=lib", path, "--num-threads", "6", "--multiple-errors", "4", "--rlimit", "80", "--time"] + list(extra)
    rc, o, err = sh(cmd, B, verus_env(), timeout)
    txt = o + "\n" + err
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", txt)
    smt = re.search(r"total smt-time:\s+(\d+) ms|smt-run\s*:?\s+(\d+) ms", txt)
    diags = []
    lines = txt.splitlines()
    for i, l in enumerate(lines):
        q = re.match(r"^error(\[E\d+\])?: (.*)", l)
        if q:
            loc = None
            for k in lines[i + 1:i + 4]:
                w = re.search(r"--> (\S+?):(\d+):(\d+)", k)
                if w:
                    loc = int(w.group(2)) if os.path.basename(w.group(1)) == os.path.basename(path) else None
                    break
            body = []
            for k in lines[i:i + 40]:
                if k.strip() == "" and body:
                    break
                body.append(k)
            diags.append({"msg": q.group(2), "line": loc, "code": q.group(1), "text": "\n".join(body)})
    return {"rc": rc, "verified": int(m.group(1)) if m else 0, "errors": int(m.group(2)) if m else None, "diags": diags,
            "out": txt, "wall": time.time() - t, "smt_ms": int(next(g for g in smt.groups() if g)) if smt else None,
            "cmd": " ".join(cmd)}


def verus_env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC"):
        e.pop(k, None)
    return e


def scan_trust(src):
    """Every assumption in the verified text: functions without a body, uninterpreted functions, axioms, assumes."""
    out = []
    lines = src.splitlines()
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "uninterp spec" in s or re.search(r"\b(assume|admit)\s*\(", s) or "axiom fn" in s or "external_type_specification" in s:
            kind = ("assume" if re.search(r"\b(assume|admit)\s*\(", s) else "uninterpreted" if "uninterp" in s else "external")
            for k in lines[i:i + 8]:
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", k)
                if m:
                    out.append(f"{kind}: {m.group(2)}")
                    break
            else:
                out.append(f"{kind}: line {i + 1}")
    return out


def prove(pid, ex, facts, timeout):
    unit = f"{V}/units/{pid}.unit"
    if not os.path.exists(unit):
        return None
    src, meta = f"{B}/{pid}.rs", f"{B}/{pid}.json"
    rc, o, err = sh([ex, REPO, facts, f"{V}/contracts", unit, src, meta], B)
    if rc != 0:
        raise Lost("extraction: " + (err.strip() or o.strip())[-600:])
    m = json.load(open(meta))
    text = open(src).read()
    res = {"functions": m["functions"], "lost": [], "failed": [], "trusted": scan_trust(text)}
    want = [l.split(None, 1)[1].strip() for l in open(unit) if l.startswith("prove ")]
    for k in m.get("unreached", []):
        res["lost"].append(f"{k}: no such function any more")
    for k, f in m["functions"].items():
        for e in f["errs"]:
            res["lost"].append(f"{k}: {e}")
        if f["role"] == "plain":
            res["lost"].append(f"{k}: reached without a contract")
    if res["lost"]:
        # the text is not that of the tree, whatever the verifier says of it
        return {**res, "verus": None, "proved": [], "stubs": []}
    # the twin: every proved function must be entered under a satisfiable precondition
    twin_text = text.replace("/*entry*/", "assert(false);")
    twin = f"{B}/{pid}_twin.rs"
    open(twin, "w").write(twin_text)
    tj = Job(verus_run, twin, timeout)
    v = verus_run(src, timeout)
    if v["errors"]:
        # a search that fails once may succeed with another seed; an obligation that holds under any seed holds
        w = verus_run(src, timeout, ["--smt-option", "smt.random_seed=11"])
        if w["errors"] == 0:
            v = w
    tv = tj.get()
    res["verus"] = v
    if v["rc"] == "timeout":
        res["lost"].append("verifier: out of time")
    # an invariant belongs to a loop: where the loops are others than the contract was written for, a failure
    # says nothing about the property
    shapes = json.load(open(f"{V}/units/shapes.json"))
    spans = sorted((f["emitted"][0], f["emitted"][1], k) for k, f in m["functions"].items() if "emitted" in f)

    def owner(line):
        for a, b, k in spans:
            if line is not None and a <= line <= b:
                return k
    for d in v["diags"]:
        if d["msg"].startswith(("aborting due to", "could not compile")):
            continue
        k = owner(d["line"])
        if not OBLIGATION.match(d["msg"]) or d["code"]:
            res["lost"].append(f"verifier: {d['msg'][:200]} (line {d['line']})")
        elif k is None:
            res["lost"].append(f"verifier: {d['msg'][:120]} outside the extracted functions (line {d['line']})")
        else:
            f = m["functions"][k]
            if f["role"] != "proved":
                res["lost"].append(f"{k}: {d['msg']} in a function without a contract")
            elif f["shapes"] != shapes.get(k, []):
                res["lost"].append(f"{k}: {d['msg']}, but the loops are not those of the contract")
            elif new := sorted(x for x in f.get("rewrites", {}) if x.startswith("callee inlined: ") and x not in shapes.get(k + "#inlined", [])):
                # a helper the contract has not been written for: nothing was stated about it
                res["lost"].append(f"{k}: {d['msg']}, with {new[0].split(': ')[1]} in place of a call")
            else:
                res["failed"].append({"function": k, "where": f"{f['file']}:{f['line']}", "obligation": d["msg"], "text": d["text"]})
    if v["errors"] is None and not res["lost"] and not res["failed"]:
        res["lost"].append("verifier: no result: " + v["out"][-300:])
    if v["verified"] == 0 and not res["failed"]:
        res["lost"].append("verifier: no obligation was generated")
    # vacuity
    if v["errors"] == 0:
        hit = {owner(d["line"]) for d in tv["diags"] if d["msg"].startswith("assertion failed")}
        proved = [k for k, f in m["functions"].items() if f["role"] == "proved" and "emitted" in f]
        res["vacuous"] = [k for k in proved if k not in hit]
        res["twins"] = len(proved) - len(res["vacuous"])
        if res["vacuous"]:
            res["lost"].append("assert(false) on entry was accepted in " + ", ".join(res["vacuous"]))
    res["proved"] = [k for k, f in m["functions"].items() if f["role"] == "proved"]
    res["stubs"] = [k for k, f in m["functions"].items() if f["role"] == "stub"]
    missing = [k for k in want if k not in m["functions"]]
    if missing:
        res["lost"] += [f"{k}: not extracted" for k in missing if not any(x.startswith(k + ":") for x in res["lost"])]
    return res


# ---------------------------------------------------------------- bounded replay

def run_replay(pid, cmd, extra, mult, timeout):
    scratch = os.path.join(B, "scratch", f"{pid}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    words = os.path.join(scratch, "literals.json")
    json.dump(literals.dictionary(REPO, f"{V}/units/literals.json"), open(words, "w"))
    e = env({"VERIF_SEED": str(SEED), "SWC_MULT": str(mult), "SWC_SCRATCH": scratch, "SWC_DICT": words, **extra})
    try:
        rc, o, err = sh(cmd, scratch, e, timeout)
        if rc == 0:
            return json.loads(o.strip().splitlines()[-1])
        # It died or hung: find the input it was working on.
        tr = os.path.join(scratch, "last-input")
        rc2, o2, err2 = sh(cmd, scratch, {**e, "SWC_TRACE": tr}, timeout)
        if rc2 == 0:
            return json.loads(o2.strip().splitlines()[-1])
        last = open(tr).read() if os.path.exists(tr) else ""
        crash = rc2 == "timeout" or (isinstance(rc2, int) and rc2 in (-6, -11, -4, -7, -8, 134, 139))
        if crash and last:
            how = f"no answer within {timeout} s" if rc2 == "timeout" else f"the process died (status {rc2})"
            return {"property": pid, "cases": 0, "dims": {}, "known": [], "fails": [{"input": last, "failed": how}], "seed": SEED, "mult": mult}
        raise Lost(f"replay ended with status {rc2}: {(err2 or o2)[-300:]}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def build_replay():
    cargo("the replay harness", ["build", "--offline", "-q", "--bin", "replay"], f"{V}/replay", "replay")
    return f"{B}/replay/debug/replay"


def build_cli():
    cargo("the command line tool", ["build", "--offline", "-q", "-p", "subweight"], REPO, "cli")
    return f"{B}/cli/debug/subweight"


def replay(pid, exj, tier):
    mult = QUICK.get(pid, 5) * (1 if tier == "quick" else 12)
    timeout = 240 if tier == "quick" else 850
    jobs = []
    res = []
    if pid in WEB:
        ex = exj.get()
        items = f"{B}/web_items.rs"
        rc, o, err = sh([ex, "--items", f"{REPO}/web/src/main.rs", items, "CompareArgs", "Repo"])
        if rc != 0:
            raise Lost(err.strip())
        cargo("the page harness", ["build", "--offline", "-q"], f"{V}/replay_web", "replay_web", {"SWC_ITEMS": items})
        return run_replay(pid, [f"{B}/replay_web/debug/swc-replay-web", pid], {}, mult, timeout)
    if pid in LIST:
        ex = exj.get()
        items = f"{B}/list_items.rs"
        rc, o, err = sh([ex, "--items", f"{REPO}/core/src/lib.rs", items, "list_files"])
        if rc != 0:
            raise Lost(err.strip())
        cargo("the listing harness", ["build", "--offline", "-q", "--bin", "replay_list"], f"{V}/replay", "replay", {"SWC_ITEMS": items})
        return run_replay(pid, [f"{B}/replay/debug/replay_list", pid], {}, mult, timeout)
    extra = {}
    cj = Job(build_cli) if pid in NEEDS_CLI else None
    b = build_replay()
    if cj:
        extra["SWC_CLI"] = cj.get()
    return run_replay(pid, [b, pid], extra, mult, timeout)


# ---------------------------------------------------------------- decision

def findings():
    """Entries of the known-findings file: property and entry of each recorded, unrepaired defect."""
    out = {}
    p = f"{V}/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def discharged_elsewhere(k):
    for u in sorted(os.listdir(f"{V}/units")):
        if f"prove {k}\n" in open(f"{V}/units/{u}").read() + "\n":
            return u.split(".")[0]


def main(pid):
    os.makedirs(B, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    exj = Job(build_extractor)
    rj = Job(replay, pid, exj, TIER)
    pr, plost, rr, rlost = None, None, None, None
    if os.path.exists(f"{V}/units/{pid}.unit"):
        fj = Job(build_facts, pid == "C18")
        try:
            pr = prove(pid, exj.get(), fj.get(), 300 if TIER == "quick" else 800)
        except Lost as x:
            plost = str(x)
        except Exception as x:
            plost = f"internal: {type(x).__name__}: {x}"
    else:
        plost = "no contract unit for this property"
    try:
        rr = rj.get()
    except Lost as x:
        rlost = str(x)

    lost = ([plost] if plost else []) + (pr["lost"] if pr else [])
    failed = pr["failed"] if pr else []
    known = findings()
    viol = []
    seen_known = []
    if rr:
        viol += rr["fails"]
        for e, i in rr["known"]:
            if (pid, e) in known:
                seen_known.append((e, i))
            else:
                viol.append({"input": i, "failed": f"{e}: this failure is not a listed finding"})
    v = pr["verus"] if pr else None
    cov = {
        "explanation": "Deductive proof of the extracted functions by Verus (Z3); next to it the executable contracts run against the compiled code (bounded, not counted as proved).",
        "obligations": (v["verified"] + (v["errors"] or 0)) if v else 0,
        "discharged": v["verified"] if v else 0,
        "checker_cmd": v["cmd"] if v else "verus (not reached)",
        "solver": "Z3 as shipped with Verus",
        "solver_ms": v["smt_ms"] if v else None,
        "verifier_wall_s": round(v["wall"], 2) if v else None,
        "functions_under_contract": {k: f"{f['file']}:{f['line']}-{f['end']}" for k, f in pr["functions"].items() if f["role"] == "proved"} if pr else {},
        "assumed_contracts": {k: (f"discharged by the check of {discharged_elsewhere(k)}" if discharged_elsewhere(k) else "assumed; exercised by the bounded replay only") for k in (pr["stubs"] if pr else [])},
        "source_rewrites": {k: f["rewrites"] for k, f in pr["functions"].items() if f["rewrites"]} if pr else {},
        "trusted_base": sorted(set(pr["trusted"])) if pr else [],
        "vacuity_twins_refuted": pr.get("twins", 0) if pr else 0,
        "undischarged": [{k: f[k] for k in ("function", "where", "obligation")} for f in failed],
        "not_reached_by_the_proof": lost,
        "bounded_replay": {"evaluations": rr["cases"], "kinds_of_cases": rr["dims"], "failures": len(viol)} if rr else {"not run": rlost},
    }
    if failed:
        decided = "refuted obligation" + (" with a failing input from the bounded replay" if viol else "")
    else:
        decided = "proof" if pr and not lost else "bounded replay only" if rr else "nothing"
    cov["decided_by"] = decided
    cov["evaluations"] = rr["cases"] if rr else 0
    level = LEVEL if os.path.exists(f"{V}/units/{pid}.unit") else "other"
    code, line = 0, None
    if viol or (failed and not lost):
        rp = f"{V}/evidence/{pid}.replay.json"
        json.dump({"property": pid, "failing_inputs": viol, "failed_obligations": failed, "seed": SEED,
                   "how_to_replay": f"VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {pid}",
                   "verifier_output": (v["out"][-20000:] if v and failed else "")}, open(rp, "w"), indent=1)
        line = f"VIOLATION property={pid} replay={rp}" + ("" if viol else " no-failing-input-found")
        code = 1
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 2),
          "assumptions": ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(pid, []), "violations": len(viol) + len(failed) if code else 0}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: decided by {decided}; obligations {cov['discharged']}/{cov['obligations']}; "
          f"{rr['cases'] if rr else 0} bounded cases; {ev['wall_s']} s")
    for x in lost:
        print(f"  not decided by the proof: {x}")
    if rlost:
        print(f"  no replay: {rlost}")
    for f in failed:
        print(f"  undischarged: {f['function']} ({f['where']}): {f['obligation']}")
    for f in viol[:3]:
        print(f"  failing input: {f['input'][:600]}\n    {f['failed'][:600]}")
    for e in sorted({e for e, _ in seen_known}):
        n = [i for x, i in seen_known if x == e]
        print(f"KNOWN-FINDING: property={pid} {e}: {known[(pid, e)]} (seen on {len(n)} inputs, e.g. {n[0][:160]})")
    if line:
        print(line)
    sys.stdout.flush()
    os._exit(code)


ASSUMPTIONS = {"*": [
    "Termination is not proved: the contracts hold for every call that returns.",
    "The extractor's rewrites (listed under source_rewrites) preserve meaning; its type information comes from the compiler.",
    "Contracts of library functions (trusted_base) are assumed.",
]}


def setup():
    os.makedirs(B, exist_ok=True)
    js = [Job(build_extractor), Job(build_facts, True), Job(build_replay), Job(build_cli)]
    for j in js:
        try:
            j.get()
        except Lost as x:
            print(x)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        setup()
    main(sys.argv[1])
