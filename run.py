#!/usr/bin/env python3
"""run.py ID [quick|thorough]: decide one property on /repo's current working tree.

1. `cargo kani` regenerates and discharges every obligation of the property's contract crate
   (crates/<id>), which calls the real functions of /repo through a path dependency.
2. In parallel the same crate is built natively; its `evaluate` command discharges the obligations
   over finite domains by complete evaluation of the real code (and runs the labelled bounded
   stand-ins).
3. A failed obligation's counterexample is fetched from the verifier (concrete playback) and replayed
   natively against the real code; if it does not reproduce there, a seeded search is tried; if that
   finds nothing the violation is reported with no-failing-input-found.
"""
import json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ID = sys.argv[1].upper()
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ONLY = os.environ.get("VERIF_ONLY")  # development: comma separated harness names
lid = ID.lower()
CRATE = f"{HERE}/crates/{lid}"
WORK = f"{HERE}/.work/{lid}"
# the verifier's manifest for the same sources, where it differs
KCRATE = f"{CRATE}/kani" if os.path.exists(f"{CRATE}/kani/Cargo.toml") else CRATE
CFG = json.load(open(f"{HERE}/checks.json")).get(ID, {})
os.makedirs(WORK, exist_ok=True)
os.makedirs(f"{HERE}/evidence", exist_ok=True)
T0 = time.time()
DEADLINE = T0 + (840 if TIER == "quick" else 3000)
HTIMEOUT = CFG.get("harness_timeout", {}).get(TIER, 120 if TIER == "quick" else 900)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def run(cmd, timeout=None, **kw):
    """Runs cmd in a process group of its own and ends the whole group afterwards: the verifier leaves
    its SMT solver running when it gives up on an obligation."""
    import signal
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 124
        out = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if out is None:
        out, _ = p.communicate()
    return rc, out


def die(msg, out=""):
    """No answer: a tool failed or an anchor was lost. Never an alarm."""
    print(f"ERROR property={ID}: {msg}")
    if out:
        print(out[-4000:])
    sys.exit(2)


# --- properties of the compiler diagnostics -------------------------------------------------------
SEMANTIC = {"E0308", "E0277", "E0369", "E0080", "E0271", "E0282", "E0283", "E0284", "E0599", "E0368", "E0600", "E0605",
            "E0606", "E0004"}


def classify_build_failure(out):
    """A contract program is well typed exactly when the property's typing holds (a sum of lengths has
    the type of a length ...).  When /repo itself compiles, a type error in the contract crate is a
    failed obligation; a missing name is a lost anchor."""
    codes = set(re.findall(r"^error\[(E\d+)\]", out, re.M))
    in_repo = re.findall(r"could not compile `(whippyunits[^`]*)`", out)
    if in_repo:
        return "repo"
    errs = re.findall(r"^error(?:\[E\d+\])?: (.*)$", out, re.M)
    errs = [e for e in errs if not e.startswith(("aborting", "could not compile"))]
    macro_err = any(not c for c in re.findall(r"^error(\[E\d+\])?: (?!aborting|could not compile)", out, re.M))
    if codes and codes <= SEMANTIC:
        return "typing"
    if not codes and macro_err:
        return "typing"
    return "anchor"


class Build:
    """One configuration of /repo: the contract crate built natively and under the verifier.

    `cge` is /repo's optional feature of the same name (generic_const_exprs, nightly only), where the
    operators are generated by other macro arms: the same contracts, built by crates/<id>/cge/Cargo.toml."""

    def __init__(self, tag):
        self.tag = tag
        self.pre = f"{tag}::" if tag else ""
        self.crate = f"{CRATE}/{tag}" if tag else CRATE
        # the verifier's manifest for the same sources, where it differs
        self.kcrate = self.crate if tag else KCRATE
        self.work = f"{WORK}/{tag}" if tag else WORK
        os.makedirs(self.work, exist_ok=True)
        self.native, self.kani = {}, {}

    def native_build(self):
        t = time.time()
        kw = dict(RUSTUP_TOOLCHAIN="nightly") if self.tag == "cge" else {}
        rc, out = run(["cargo", "build", "--offline", "--manifest-path", f"{self.crate}/Cargo.toml",
                       "--target-dir", f"{self.work}/native"], env=env(RUSTFLAGS="-Awarnings", **kw), timeout=700)
        self.native.update(rc=rc, out=out, build_s=time.time() - t)
        if rc:
            return
        self.bin = f"{self.work}/native/debug/{lid}"
        t = time.time()
        rc, out = run([self.bin, "evaluate", str(SEED), TIER], env=env(), timeout=DEADLINE - time.time())
        self.native.update(eval_rc=rc, eval_out=out, eval_s=time.time() - t)

    def kani_cmd(self, target, extra):
        flags = CFG.get("kani_flags", ["--no-overflow-checks"])
        return ["cargo", "kani", "--manifest-path", f"{self.kcrate}/Cargo.toml", "--target-dir", target,
                "-Z", "unstable-options", *flags, *CFG.get("kani_z", []), *extra]

    def kani_run(self):
        t = time.time()
        js = f"{self.work}/kani.json"
        if os.path.exists(js):
            os.remove(js)
        extra = ["-j", str(CFG.get("jobs", 8)), "--output-format", "terse", "--harness-timeout", f"{HTIMEOUT}s",
                 "--export-json", js]
        if ONLY:
            for o in ONLY.split(","):
                extra += ["--harness", o]
        rc, out = run(self.kani_cmd(f"{self.work}/kani", extra), env=KENV, timeout=max(60, DEADLINE - time.time()), cwd=self.kcrate)
        self.kani.update(rc=rc, out=out, s=time.time() - t)
        open(f"{self.work}/kani.log", "w").write(out)
        if os.path.exists(js):
            self.kani["json"] = json.load(open(js))

    def playback(self, name):
        """The verifier's counterexample for one harness, as hex argument bytes."""
        left = DEADLINE - time.time() - 30
        if left < 30:
            return None, None, ""
        extra = ["-Z", "concrete-playback", "--concrete-playback=print", "--harness", name, "--exact",
                 "--harness-timeout", f"{HTIMEOUT}s"]
        rc, out = run(self.kani_cmd(f"{self.work}/kani", extra), env=KENV, timeout=min(left, HTIMEOUT + 120), cwd=self.kcrate)
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
            vals = re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))
            h = ["".join(f"{int(b):02x}" for b in v.replace(" ", "").split(",") if b) for v in vals]
            # the cover's playback comes too: prefer one that reproduces
            rc2, o2 = run([self.bin, "replay", name, *h], env=env(), timeout=60)
            if rc2 == 1 and "REPRODUCED" in o2:
                return h, o2.strip(), out
        return None, None, out

    def sample(self, name, secs):
        """Bounded stand-in: seeded search for a failing input of one obligation on the real code."""
        rc, out = run([self.bin, "sample", name, "2000000", str(SEED), str(secs)], env=env(), timeout=secs + 60)
        m = re.search(r"FOUND ?(.*)\n(.*)", out)
        if m:
            return m.group(1).split(), m.group(2), True, 0
        n = re.search(r"NONE (\d+)", out)
        return None, None, False, int(n.group(1)) if n else 0


KENV = env(RUSTFLAGS="-Zmir-opt-level=2 -Awarnings" + (" --cfg thorough" if TIER == "thorough" else ""))
builds = [Build("")] + ([Build("cge")] if os.path.exists(f"{CRATE}/cge/Cargo.toml") else [])


violations = []


def violate(kind, obligation, detail, found):
    i = len(violations)
    path = f"{WORK}/violation-{i}.json" if i else f"{WORK}/violation.json"
    json.dump({"property": ID, "kind": kind, "obligation": obligation, "tier": TIER, **detail},
              open(path, "w"), indent=1)
    violations.append(obligation)
    print(f"VIOLATION property={ID} replay={path}" + ("" if found else " no-failing-input-found"), flush=True)


def main():
    th = []
    if CFG.get("kani", True):
        th = [threading.Thread(target=lambda: [b.kani_run() for b in builds])]
        th[0].start()
    for b in builds:
        b.native_build()
    for t in th:
        t.join()

    known_file = [l.rstrip("\n") for l in open(f"{HERE}/known-findings.txt")] if os.path.exists(f"{HERE}/known-findings.txt") else []
    known = [l.split(f"finding: property={ID} ", 1)[1] for l in known_file if l.startswith(f"finding: property={ID} ")]

    for b in builds:
        if b.native["rc"] != 0:
            k = classify_build_failure(b.native["out"])
            if k == "typing":
                print(b.native["out"][-3000:])
                violate("typing", b.pre + "contract-crate-typing", {"compiler_output": b.native["out"][-12000:]}, False)
                return finish([], {}, [], None)
            die(f"contract crate does not build ({b.pre}{k})", b.native["out"])
        if b.native.get("eval_rc") not in (0, 1):
            die(f"native evaluation ended with {b.native.get('eval_rc')}", b.native.get("eval_out", ""))

    # --- complete evaluations
    evals, samples, known_hits, efails = [], [], [], {}
    for b in builds:
        for l in b.native["eval_out"].splitlines():
            if l.startswith("EVAL "):
                n, *kv = l[5:].split()
                evals.append(dict(name=b.pre + n, **{a: int(v) for a, v in (x.split("=") for x in kv)}))
            elif l.startswith("SAMPLE "):
                samples.append(l[7:])
            elif l.startswith("KNOWN "):
                known_hits.append(l[6:].split(" ", 1)[1])
            elif l.startswith("FAIL "):
                n, m = l[5:].split(" ", 1)
                efails.setdefault((b, n), []).append(m)
    for k in sorted(set(known_hits)):
        if k in known:
            print(f"KNOWN-FINDING: property={ID} {k}")
        else:
            efails.setdefault((builds[0], "unlisted_known"), []).append(k)
    for (b, n), ms in efails.items():
        real = [m for m in ms if m not in known]
        if real:
            for m in real[:5]:
                print(f"  {b.pre}{n}: {m}")
            violate("evaluation", b.pre + n, {"failing_inputs": real,
                    "replay_cmd": f"{b.bin} evaluate {SEED} {TIER} {n}"}, True)

    # --- proof obligations
    harn = {}
    for b in builds if CFG.get("kani", True) else []:
        mine = {}
        j = b.kani.get("json")
        if j is None:
            # The contract crate builds natively but not under the verifier (a callee contract names a
            # function that moved, say), or the verifier gave up: nothing is proved in this run, and
            # every obligation falls back to its bounded stand-in below.
            print(f"NOTE property={ID}: the verifier gave no result ({b.pre}{b.kani['rc']}); obligations are only sampled")
            print(b.kani["out"][-1500:])
        else:
            mine = interpret(j)
        rc, out = run([b.bin, "list"], env=env(), timeout=60)
        for n in re.findall(r"^OBLIGATION (.*)$", out, re.M):
            if n not in mine and not ONLY:
                mine[n] = {"status": "not attempted" if j is None else "deferred", "checks": 0}
        failed = sorted(n for n, h in mine.items() if h["status"] == "failed")
        with ThreadPoolExecutor(4) as ex:
            # the first builds (if it has to), the others run beside each other
            played = [b.playback(n) for n in failed[:1]] + list(ex.map(b.playback, failed[1:]))
        for name, (vals, msg, pout) in zip(failed, played):
            h = mine[name]
            found = vals is not None
            if not found:
                vals, msg, found, _ = b.sample(name, max(1, min(20, DEADLINE - time.time() - 10)))
            print(f"  obligation {b.pre}{name} failed: {msg or h.get('why','')}")
            violate("proof", b.pre + name, {"verifier_output": pout[-6000:], "arguments_hex": vals,
                    "message": msg or h.get("why", ""),
                    "replay_cmd": f"{b.bin} replay {name} " + " ".join(vals or [])}, found)
        todo = [n for n, h in sorted(mine.items()) if h["status"] not in ("ok", "failed")]
        if todo:
            per = max(1, min(10, 240 // len(todo)))
            with ThreadPoolExecutor(8) as ex:
                for name, (vals, msg, found, n) in zip(todo, ex.map(lambda n: b.sample(n, per), todo)):
                    mine[name]["sampled"] = n
                    if found:
                        print(f"  obligation {b.pre}{name} failed: {msg}")
                        violate("sampled", b.pre + name, {"arguments_hex": vals, "message": msg,
                                "replay_cmd": f"{b.bin} replay {name} {' '.join(vals)}"}, True)
        harn.update({b.pre + n: h for n, h in mine.items()})
    finish(evals, harn, samples, known_hits)


def interpret(j):
    res = {}
    err = {d["harness_id"]: d for d in j["error_details"]}
    stats = {d["harness_id"]: d for d in j["cbmc"]}
    for r in j["verification_results"]["results"]:
        n = r["harness_id"]
        checks = r["checks"]
        by = {}
        for c in checks:
            by.setdefault(c["status"].lower(), []).append(c)
        st = stats.get(n, {})
        h = {"checks": len(checks), "passed": len(by.get("success", [])), "unreachable": len(by.get("unreachable", [])),
             "ms": r["duration_ms"], "solver": (st.get("configuration") or {}).get("solver"),
             "solver_s": (st.get("cbmc_stats") or {}).get("runtime_decision_procedure_s")}
        failed = by.get("failure", [])
        unsup = [c for c in failed if "unsupported" in (c.get("category", "") + c["description"]).lower()
                 or "is not currently supported by Kani" in c["description"]]
        unwind = [c for c in failed if c.get("category") == "unwind" or "unwinding assertion" in c["description"]]
        covers = [c for c in checks if c.get("category") == "cover"]
        e = err.get(n, {})
        if e.get("exit_status") in ("timeout", "out_of_memory") or (r["status"] != "Success" and not checks):
            h["status"] = "timeout"
        elif unsup:
            h["status"] = "unsupported"
            h["why"] = unsup[0]["description"]
        elif failed and len(unwind) == len(failed):
            h["status"] = "timeout"
            h["why"] = "a loop was not fully unwound"
        elif failed:
            h["status"] = "failed"
            c = failed[0]
            h["why"] = f'{c["description"]} ({c["function"]} {c["location"].get("file")}:{c["location"].get("line")})'
        elif covers and not any(c["status"].lower() in ("satisfied",) for c in covers):
            h["status"] = "vacuous"
        elif r["status"] == "Success":
            h["status"] = "ok"
        else:
            h["status"] = "timeout"
        res[n] = h
    return res


def is_bounded(name):
    return name.rsplit("::", 1)[-1].startswith("bounded_")


def finish(evals, harn, samples, known_hits):
    # a verifier obligation over inputs of bounded length: a bounded stand-in, never counted as proved
    vbounded = {n: h for n, h in harn.items() if is_bounded(n) and h["status"] == "ok"}
    harn = {n: h for n, h in harn.items() if n not in vbounded}
    proved = [n for n, h in harn.items() if h["status"] == "ok"]
    tmo = [n for n, h in harn.items() if h["status"] not in ("ok", "failed", "deferred")]
    deferred = [n for n, h in harn.items() if h["status"] == "deferred"]
    complete = [e for e in evals if not is_bounded(e["name"])]
    bounded = [e for e in evals if is_bounded(e["name"])] + [dict(h, name=n, by="verifier") for n, h in vbounded.items()]
    cov = {
        "obligations": len(harn) - len(deferred) + len(complete),
        "discharged": len(proved) + len([e for e in complete if not e["fails"]]),
        "checker_cmd": " ".join(builds[0].kani_cmd(".work/" + lid + "/kani", ["--output-format", "terse"])) if CFG.get("kani", True) else f"{lid} evaluate",
        "trusted_base": CFG.get("trusted", []) + BASE_TRUST,
        "functions_under_contract": CFG.get("functions", []),
        "verifier_obligations": {n: {k: v for k, v in h.items()} for n, h in sorted(harn.items())},
        "verifier_checks_discharged": sum(h.get("passed", 0) for h in harn.values()),
        "back_ends": sorted({h.get("solver") or "cbmc" for h in harn.values()}),
        "solver_s": round(sum(h.get("solver_s", 0) or 0 for h in harn.values()), 2),
        "complete_evaluations": complete,
        "bounded_stand_ins": bounded,
        "deferred_to_the_thorough_tier_sampled_here": [{"name": n, "sampled": harn[n].get("sampled")} for n in deferred],
        "not_discharged_sampled_instead": [{"name": n, "sampled": harn[n].get("sampled")} for n in tmo],
        "explanation": CFG.get("explanation", ""),
        "samples": samples[:8],
        "known_findings_seen": sorted(set(known_hits or [])),
    }
    ev = {"property": ID, "tier": TIER, "seed": SEED, "level": CFG.get("level", "proof"), "coverage": cov,
          "assumptions": CFG.get("assumptions", []) + BASE_ASSUME, "wall_s": round(time.time() - T0, 1),
          "violations": len(violations)}
    json.dump(ev, open(f"{HERE}/evidence/{ID}.json", "w"), indent=1)
    print(f"{ID} {TIER}: {cov['discharged']}/{cov['obligations']} obligations discharged "
          f"({len(proved)} by the verifier, {len(complete)} complete evaluations, {len(bounded)} bounded stand-ins, "
          f"{len(tmo)} not discharged{' ' + str(tmo) if 0 < len(tmo) < 6 else ''}, {len(deferred)} deferred), {len(violations)} violations, {ev['wall_s']} s")
    sys.exit(1 if violations else 0)


BASE_TRUST = [
    "rustc (macro expansion, type checking, MIR), Kani 0.68 translation and CBMC 6.11 with its SAT/SMT back ends",
    "the specification in /verif/crates/spec (SI definitions, prime-exponent arithmetic)",
]
BASE_ASSUME = [
    "the host's cfg (64-bit, std) is the configuration verified"
    + (", with and without the cge feature" if len(builds) > 1 else ", without the cge feature (C02, C07 and C08 cover it)"),
]
main()
