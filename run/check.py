#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property on /repo's working tree:
  1. weave: copy the functions under contract out of /repo and add contracts
  2. Verus: discharge every obligation of the woven units
  3. replay harness: the same property evaluated on the compiled crate, to
     find a failing input for a failed obligation, and as the (bounded)
     stand-in for functions the verifier could not process on this tree
Exit 0, or 1 with a VIOLATION line.
"""
import json, os, re, subprocess, sys, threading, time, shutil, glob, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZOK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
T0 = time.time()
CONF = json.load(open(os.path.join(VERIF, "run", "checks.json")))
FINDINGS = os.path.join(VERIF, "known-findings.txt")

ENV = dict(os.environ)
ENV.update({
    "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
})
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


def sh(cmd, timeout, env=None, cwd=None):
    """run, never raise; (rc, stdout, stderr); rc None on timeout"""
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env or ENV, cwd=cwd, text=True, errors="replace",
                             start_new_session=True)
    except OSError as e:
        return 127, "", str(e)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        try:
            o, e = p.communicate(timeout=10)
        except Exception:
            o, e = "", ""
        return None, o or "", e or ""


REFUTED = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed"
    r"|invariant not satisfied|possible arithmetic (under|over)flow"
    r"|possible division by zero|decreases not satisfied|recommendation not met"
    r"|failed this|possible index out of bounds|requires not satisfied"
    r"|assertion not satisfied|constructed value may fail to meet")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out")


class Unit:
    def __init__(self, name, work, probe=False):
        self.name, self.work, self.probe = name, work, probe
        self.lost = {}        # key -> reason
        self.refuted = {}     # key -> [text]
        self.verified = 0
        self.fns = []
        self.items = []
        self.dead = None      # whole unit undecided, reason
        self.smt_ms = 0
        self.imports = []
        self.wall = 0.0
        self.vacuous = []
        self.trusted = []
        self.clauses = 0
        self.log = ""

    def run(self, budget):
        t = time.time()
        try:
            self._run(budget)
        except Exception as e:
            self.dead = "runner: %r" % (e,)
        self.wall = time.time() - t

    def _run(self, budget):
        weave = os.path.join(BUILD, "weave", "debug", "weave")
        spec = os.path.join(VERIF, "specs", self.name + ".vs")
        out = os.path.join(self.work, self.name + ".rs")
        mp = out[:-3] + ".map"
        lose = []
        t_end = time.time() + budget
        for _ in range(8):
            cmd = [weave, spec, REPO, out, mp]
            for l in lose:
                cmd += ["--lose", l]
            rc, o, e = sh(cmd, 60)
            if rc != 0:
                self.dead = "weaver: " + (e or o)[-400:]
                return
            entries = json.load(open(mp))
            self.items = [x for x in entries if x["kind"] == "item"]
            self.fns = [x for x in entries if x["kind"] == "fn"]
            self.imports = [x["key"] for x in entries if x["kind"] == "import"]
            for x in self.items:
                if x["status"] != "ok":
                    self.dead = "type %s: %s" % (x["key"], x["reason"])
            if self.dead:
                return
            for x in self.fns:
                if x["status"] != "ok":
                    self.lost.setdefault(x["key"], x["reason"])
            left = t_end - time.time()
            if left < 5:
                self.dead = "out of time"
                return
            rl = CONF["_rlimit"].get(self.name, 30)
            rc, o, e = sh(["verus", out, "--multiple-errors", "6", "--output-json",
                           "--time", "--rlimit", str(rl), "--num-threads", "4",
                           "--error-format=json"], left, cwd=self.work)
            self.log = e
            if rc is None:
                self.dead = "verifier ran out of time"
                return
            try:
                res = json.loads(o[o.index("{"):])
            except Exception:
                self.dead = "verifier gave no result: " + e[-300:]
                return
            vr = res["verification-results"]
            self.smt_ms = res.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
            compile_bad, other = {}, []
            refuted, rlim = {}, {}
            for line in e.splitlines():
                if not line.startswith("{"):
                    continue
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("level") != "error":
                    continue
                msg = d["message"]
                if msg.startswith("aborting due to"):
                    continue
                spans = [s for s in d["spans"] if s["file_name"].endswith(self.name + ".rs")]
                key = None
                prim = [s for s in spans if s["is_primary"]] + spans
                for s in prim:
                    for f in self.fns:
                        if f["start"] <= s["line_start"] < f["end"]:
                            key = key or f["key"]
                txt = d.get("rendered") or msg
                if RLIMIT.search(msg):
                    rlim.setdefault(key, []).append(txt)
                elif REFUTED.search(msg):
                    # the "obeys" clause of an operator trait is an anchor of
                    # the proof, not part of a property
                    std = [s for s in d["spans"] if s["is_primary"]]
                    if key is None:
                        for s in spans:
                            for f in self.fns:
                                if f["start"] <= s["line_start"] < f["end"]:
                                    key = f["key"]
                    refuted.setdefault(key, []).append(txt)
                else:
                    if key is None:
                        other.append(txt)
                    else:
                        compile_bad.setdefault(key, []).append(txt)
            if vr.get("encountered-vir-error") or compile_bad or other or \
               (not vr.get("success") and not refuted and not rlim):
                newl = [k for k in compile_bad if k not in lose]
                for k in newl:
                    self.lost[k] = "not accepted by the verifier's front end: " + compile_bad[k][0][:300]
                if newl:
                    lose += newl
                    continue
                self.dead = "unit not accepted by the verifier: " + ("".join(other) or e)[-600:]
                return
            self.verified = vr.get("verified", 0)
            for k, v in rlim.items():
                self.lost[k or "lemmas"] = "resource limit"
            for k, v in refuted.items():
                if k is None:
                    self.lost["lemmas"] = v[0][:400]
                else:
                    self.refuted[k] = v
            break
        else:
            self.dead = "too many functions out of the verifier's reach"
            return
        text = open(out).read()
        self.trusted = sorted(set(
            m.group(1) for m in re.finditer(
                r"(?:external_body\]|external\]|external_type_specification\])\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?((?:open |closed |broadcast )?(?:proof |exec |spec )?(?:fn|struct|enum|trait|impl)\s+[A-Za-z0-9_]+)", text)))
        names = set(k.split("::")[-1] for k in self.imports)
        self.trusted = [t for t in self.trusted if t.split()[-1] not in names]
        self.trusted += sorted(set("axiom " + m for m in re.findall(r"axiom fn ([A-Za-z0-9_]+)", text)))
        self.assumes = len(re.findall(r"\b(?:assume|admit)\s*\(", text))
        self.clauses = len(re.findall(r"^\s*(?:requires|ensures|invariant|decreases)\b", text, re.M))
        # vacuity: nothing may follow from a contract's precondition alone
        probe = out[:-3] + "_probe.rs"
        lines = text.split("\n")
        marks = {}
        for f in self.fns:
            if f["status"] != "ok" or f["key"] in self.lost:
                continue
            depth_line = body_open(lines, f["start"] - 1, f["end"] - 1)
            if depth_line is not None:
                i, c = depth_line
                lines[i] = lines[i][:c + 1] + " proof { assert(false); }" + lines[i][c + 1:]
                marks.setdefault(i + 1, f["key"])
        open(probe, "w").write("\n".join(lines))
        left = t_end - time.time()
        rc, o, e = sh(["verus", probe, "--multiple-errors", "1", "--output-json",
                       "--rlimit", "5", "--num-threads", "4", "--error-format=json"],
                      max(left, 20), cwd=self.work)
        hit = set()
        front = False
        for line in e.splitlines():
            if line.startswith("{"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("level") != "error":
                    continue
                for s in d["spans"]:
                    for f in self.fns:
                        if f["start"] <= s["line_start"] < f["end"]:
                            hit.add(f["key"])
                if not REFUTED.search(d["message"]) and not RLIMIT.search(d["message"]) \
                        and not d["message"].startswith("aborting"):
                    front = True
        if rc is not None and not front:
            self.vacuous = [k for k in set(marks.values()) if k not in hit]


def body_open(lines, a, b):
    """position of the brace that opens the body of the function emitted on
    lines a..b: the last function-level brace that is not part of a clause"""
    # the body is the last balanced {...} group at depth 0 of the range
    depth = 0
    last = None
    text_started = False
    instr = False
    for i in range(a, min(b, len(lines))):
        l = re.sub(r"//.*", "", lines[i])
        c = 0
        while c < len(l):
            ch = l[c]
            if instr:
                if ch == "\\":
                    c += 1
                elif ch == '"':
                    instr = False
            elif ch == '"':
                instr = True
            elif ch in "({[":
                if ch == "{" and depth == 0:
                    last = (i, c)
                depth += 1
            elif ch in ")}]":
                depth -= 1
            c += 1
    return last


def build_weaver(res):
    rc, o, e = sh(["cargo", "build", "--offline", "--manifest-path",
                   os.path.join(VERIF, "tools/weave/Cargo.toml"), "--target-dir",
                   os.path.join(BUILD, "weave")], 300)
    res["weave_rc"], res["weave_err"] = rc, e


def build_harness(pid, res):
    c = CONF[pid]
    env = dict(ENV)
    hook = os.path.join(VERIF, "harness", "hook", c.get("hook", "none") + ".rs")
    env["RUSTFLAGS"] = "--cfg zok_verif -A warnings"
    env["ZOK_VERIF_HOOK"] = hook
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    rc, o, e = sh(["cargo", "build", "--offline", "--manifest-path",
                   os.path.join(VERIF, "harness/Cargo.toml"), "--target-dir",
                   os.path.join(BUILD, "harness"), "--bin", c["bin"]], 500, env=env)
    res["h_rc"], res["h_err"] = rc, e


def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    c = CONF[pid]
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    res = {}
    th = threading.Thread(target=build_harness, args=(pid, res))
    th.start()
    build_weaver(res)
    units = [Unit(u, work) for u in c["units"]]
    if res["weave_rc"] != 0:
        for u in units:
            u.dead = "weaver does not build: " + res["weave_err"][-300:]
        uts = []
    else:
        budget = 500 if tier == "quick" else 650
        uts = [threading.Thread(target=u.run, args=(budget,)) for u in units]
        for t in uts:
            t.start()
    th.join()
    harness = {"status": "none"}
    if res["h_rc"] == 0:
        left = 840 - (time.time() - T0)
        cap = 200 if tier == "quick" else 500
        env = dict(ENV)
        env["VERIF_SEED"], env["VERIF_TIER"] = seed, tier
        env["ZOK_FINDINGS"] = ",".join(k for k, _ in known_findings(pid))
        env["RUST_BACKTRACE"] = "0"
        outp = os.path.join(work, "harness.json")
        rc, o, e = sh([os.path.join(BUILD, "harness", "debug", c["bin"]), outp],
                      max(30, min(cap, left)), env=env, cwd=work)
        try:
            harness = json.load(open(outp))
            harness["status"] = "ran"
            harness["rc"] = rc
        except Exception:
            harness = {"status": "no answer", "rc": rc, "err": (e or "")[-800:]}
    else:
        harness = {"status": "does not build", "err": (res.get("h_err") or "")[-1500:]}
    for t in uts:
        t.join()

    # ------------------------------------------------------------ decide
    viol = []
    fails = harness.get("failures", [])
    known = dict(known_findings(pid))
    shown = set()
    for f in fails:
        if f.get("key") in known:
            if f["key"] not in shown:
                print("KNOWN-FINDING: property=%s %s" % (pid, known[f["key"]]))
                shown.add(f["key"])
        else:
            viol.append(f)
    refuted = [(u, k, v) for u in units for k, v in u.refuted.items()]
    lost = [(u.name, k, r) for u in units for k, r in u.lost.items()]
    lost += [(u.name, "*", u.dead) for u in units if u.dead]
    vac = [(u.name, k) for u in units for k in u.vacuous]
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    replay = os.path.join(rdir, pid + ".txt")
    if viol or refuted:
        with open(replay, "w") as f:
            for x in viol:
                f.write("failing input (compiled crate): %s\n  rule: %s\n" % (
                    x.get("input"), x.get("what")))
            for u, k, v in refuted:
                f.write("failed obligation: unit %s function %s\n%s\n" % (u.name, k, "\n".join(v)))
            f.write("rerun: VERIF_SEED=%s python3 run/check.py %s %s\n" % (seed, pid, tier))
    if viol:
        nviol = len(viol)
        for x in viol[:5]:
            print("failing input: %s: %s" % (x.get("what"), x.get("input")))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif refuted:
        nviol = len(refuted)
        for u, k, v in refuted[:5]:
            print("failed obligation in %s (unit %s): %s" % (k, u.name, v[0].splitlines()[0]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))

    fns_ok = [f for u in units if not u.dead for f in u.fns
              if f["key"] not in u.lost and f["key"] not in u.refuted]
    discharged = sum(u.verified for u in units if not u.dead)
    obligations = discharged + sum(len(u.refuted) for u in units) + len(lost)
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if seed.isdigit() else 1,
        "level": "proof",
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": "; ".join("verus %s.rs --rlimit %s" % (u.name, CONF["_rlimit"].get(u.name, 30)) for u in units),
            "trusted_base": sorted(set(t for u in units for t in u.trusted)) + CONF["_trusted"],
            "back_end": "Verus 0.2026.09.13 / Z3",
            "functions_under_contract": [
                {"fn": f["key"], "file": f["file"], "line": f.get("src_line"), "unit": u.name,
                 "status": ("lost" if f["key"] in u.lost or u.dead else
                            "refuted" if f["key"] in u.refuted else "proved"),
                 "rewrites": f.get("rewrites", [])}
                for u in units for f in u.fns],
            "undecided_by_verifier": [{"unit": a, "fn": b, "reason": r[:400]} for a, b, r in lost],
            "contracts_imported_from_other_units": sorted(set(k for u in units for k in u.imports)),
            "vacuous": vac,
            "smt_ms": sum(u.smt_ms for u in units),
            "contract_clauses": sum(u.clauses for u in units),
            "bounded_stand_in": {k: v for k, v in harness.items() if k != "failures"},
        },
        "assumptions": c.get("assumptions", []) + CONF["_assumptions"],
        "wall_s": round(time.time() - T0, 1),
        "violations": nviol,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d functions proved, %d undecided, %d refuted, %d obligations discharged; "
          "replay harness: %s, %s evaluations; %.0f s" % (
              pid, tier, len(fns_ok), len(lost), len(refuted), discharged,
              harness.get("status"), harness.get("evaluations"), time.time() - T0))
    for a, b, r in lost:
        print("  undecided: %s %s: %s" % (a, b, r[:160].replace("\n", " ")))
    if vac:
        print("  vacuous: %s" % (vac,))
    if harness.get("status") != "ran":
        print("  harness: %s %s" % (harness.get("status"), harness.get("err", "")[-600:]))
    sys.stdout.flush()
    os._exit(1 if nviol else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        os._exit(3)
