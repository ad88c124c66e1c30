#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source.

1. vtool extracts the functions under contract from /repo/src and inserts the
   contracts of /verif/specs; Verus discharges every obligation.
2. The harness runs the real crate against independent oracles (bounded): it
   supplies the failing input for a failed obligation and stands in, labelled
   bounded, for functions the verifier could not take.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer.
"""
import hashlib, json, os, re, subprocess, sys, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")


def fail_exit(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build_vtool():
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=V + "/vtool")
    if rc != 0:
        fail_exit("vtool does not build: " + e[-2000:])


def build_harness():
    """-> (binary or None, hooks?, message)"""
    env = dict(ENV)
    msg = ""
    for hooks in (True, False):
        env["RUSTFLAGS"] = "--cfg verif_hooks -Awarnings" if hooks else "-Awarnings"
        env["CARGO_TARGET_DIR"] = V + ("/harness/target" if hooks else "/harness/target/nohooks")
        rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 600, env=env, cwd=V + "/harness")
        if rc == 0:
            return env["CARGO_TARGET_DIR"] + "/debug/harness", hooks, msg
        msg += e[-1500:]
    return None, False, msg


# ---------------------------------------------------------------- verification

class Ver:
    def __init__(self, pid, cfg, work, tier):
        self.pid, self.cfg, self.work, self.tier = pid, cfg, work, tier
        self.assume = {}      # "mod|key" -> reason
        self.failed = {}      # "mod|key" -> [rendered]
        self.lemfail = {}     # module-level item -> [rendered]
        self.lemundec = {}    # lemmas the solver gave up on
        self.reseeded = []    # discharged under another solver seed
        self.t0 = time.time()
        self.broken = None
        self.fns, self.breakdown, self.cmd = [], [], ""
        self.runs, self.smt_ms = 0, 0

    def extract(self):
        cmd = [V + "/vtool/target/debug/vtool", "--src", REPO + "/src", "--specs", V + "/specs", "--out", self.work + "/o.rs", "--map", self.work + "/m.json", "--modules", ",".join(self.cfg["modules"])]
        if self.assume:
            cmd += ["--assume", ",".join(self.assume)]
        rc, o, e = sh(cmd, 120)
        if rc != 0:
            self.broken = "extraction failed: " + (o + e)[-1500:]
            return False
        m = json.load(open(self.work + "/m.json"))
        self.map = m
        self.fns = m["functions"]
        self.lines = open(self.work + "/o.rs").read().split("\n")
        if m["errors"]:
            self.maperr = m["errors"]
        return True

    def at(self, line):
        for f in self.fns:
            if f["start"] <= line <= f["end"]:
                return f
        return None

    def item(self, line):
        """name of the proof item around a line that belongs to no extracted function"""
        i = min(line, len(self.lines)) - 1
        while i >= 0:
            m = re.search(r"\bfn (\w+)", self.lines[i])
            if m:
                return m.group(1)
            i -= 1
        return "?"

    def soften(self, keys, errs):
        """o_soft.rs: in these functions the asserted steps of the proof text become hints for a case split (mem::soft),
        which claim nothing, and lemma calls whose precondition failed are left out; contracts, invariants and the
        program stay. Same lines. A second call edits the text of the first."""
        first = self.softlines is None
        ls = list(self.lines) if first else self.softlines
        for d in errs:
            for s in d["spans"]:
                f = self.at(s["line_start"])
                if not f or not s["is_primary"] or "precondition" not in d["message"] or f["module"] + "|" + f["key"] not in keys or s["line_start"] != s["line_end"]:
                    continue
                l = ls[s["line_start"] - 1]
                i, j = s["column_start"] - 1, s["column_end"] - 1
                if re.match(r"(\w+\.)*(\w+::)*lemma_\w+(::<[^()]*>)?\(", l[i:j]) and l[i:j].endswith(")"):
                    ls[s["line_start"] - 1] = l[:i] + "()" + " " * (j - i - 2) + l[j:]
        for f in self.fns if first else []:
            if f["module"] + "|" + f["key"] not in keys:
                continue
            t = "\n".join(ls[f["start"] - 1:f["end"]])
            o, i = "", 0
            for m in re.finditer(r"\bassert\(", t):
                if m.start() < i:
                    continue
                d, k = 1, m.end()
                while k < len(t) and d:
                    d += {"(": 1, ")": -1}.get(t[k], 0)
                    k += 1
                if re.match(r"\s*;", t[k:]):
                    o += t[i:m.start()] + "crate::mem::soft(" + t[m.end():k]
                    i = k
            o += t[i:]
            ls[f["start"] - 1:f["end"]] = o.split("\n")
        self.softlines = ls
        open(self.work + "/o_soft.rs", "w").write("\n".join(ls))

    def verus(self, seed=0, only=None, timeout=None, src="/o.rs"):
        mods = [x for m in (only or self.cfg["modules"]) for x in ("--verify-only-module", m)]
        cmd = ["verus", self.work + src] + mods + ["--triggers-mode", "silent", "--rlimit", str(self.cfg.get("rlimit", 30) * (2 if seed else 1)), "--num-threads", "8", "--multiple-errors", "3", "--error-format=json", "--output-json", "--time-expanded"]
        if seed:
            cmd += ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
        elif src == "/o.rs":
            self.cmd = " ".join(cmd)
        rc, o, e = sh(cmd, timeout or self.cfg.get("timeout", 420), cwd=self.work)
        self.runs += 1
        diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        j = None
        k = o.find("{")
        if k >= 0:
            try:
                j = json.JSONDecoder().raw_decode(o[k:])[0]
            except ValueError:
                pass
        return rc, j, diags, o, e

    def go(self):
        for attempt in range(10):
            if not self.extract():
                return
            rc, j, diags, o, e = self.verus()
            if rc == -999:
                self.broken = "the verifier ran out of time"
                return
            errs = [d for d in diags if d["level"] == "error" and d["spans"]]
            vr = (j or {}).get("verification-results", {})
            compiled = j is not None and "verified" in vr and not vr.get("encountered-vir-error") and not any((d.get("code") or {}).get("code", "").startswith("E") for d in errs)
            self.failed, self.lemfail, self.lemundec = {}, {}, {}
            if not compiled:
                new = {}
                for d in errs:
                    sp = [s for s in d["spans"] if s["is_primary"]] + [s for s in d["spans"] if not s["is_primary"]]
                    for s in sp:
                        f = self.at(s["line_start"])
                        if f:
                            k = f["module"] + "|" + f["key"]
                            if k not in self.assume:
                                new[k] = "not accepted by the verifier's front end: " + d["message"]
                            break
                if not new:
                    self.broken = "the extracted program is not accepted: " + "; ".join(d["message"] for d in errs[:3]) + ("" if errs else (o + e)[-600:])
                    return
                self.assume.update(new)
                continue
            self.breakdown = []
            for m in j["times-ms"]["smt"].get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    f["module"] = m["module"]
                    self.breakdown.append(f)
            self.smt_ms = j["times-ms"]["smt"].get("smt-run", 0)
            new = self.sort(errs)
            # an obligation that a softened proof text or another solver seed discharges is discharged
            self.softlines = None
            edit = errs
            for sd, src in ((0, "/o_soft.rs"), (0, "/o_soft.rs"), (11, "/o_soft.rs"), (12, "/o.rs")):
                left = set(self.failed) | set(new) | set(self.lemfail) | set(self.lemundec)
                if not left or time.time() - self.t0 > 420:
                    break
                keep = (self.failed, self.lemfail, self.lemundec)
                self.failed, self.lemfail, self.lemundec = {}, {}, {}
                onlym = sorted(set(d2 for d2 in (self.module_at(d) for d in errs) if d2) & set(self.cfg["modules"])) or None
                if src == "/o_soft.rs":
                    before = list(self.softlines or [])
                    self.soften(left, edit)
                    if sd == 0 and before == self.softlines:
                        self.failed, self.lemfail, self.lemundec = keep
                        continue
                rc, j2, diags, o, e = self.verus(sd, onlym, 240, src)
                v2 = (j2 or {}).get("verification-results", {})
                if rc == -999 or "verified" not in v2 or v2.get("encountered-vir-error"):
                    self.failed, self.lemfail, self.lemundec = keep
                    continue
                n2 = self.sort([d for d in diags if d["level"] == "error" and d["spans"]])
                edit = [d for d in diags if d["level"] == "error" and d["spans"]] if src == "/o_soft.rs" else []
                ok = left - (set(self.failed) | set(n2) | set(self.lemfail) | set(self.lemundec))
                # still open under both: a definite failure under either seed is a failure
                self.failed = {k: v for k, v in {**self.failed, **keep[0]}.items() if k not in ok and k in left}
                self.lemfail = {k: v for k, v in {**self.lemfail, **keep[1]}.items() if k not in ok and k in left}
                self.lemundec = {k: v for k, v in {**self.lemundec, **keep[2]}.items() if k not in ok and k in left and k not in self.lemfail}
                new = {k: v for k, v in {**n2, **new}.items() if k not in ok and k in left and k not in self.failed}
                self.reseeded += sorted(ok)
            if new and not all(k in self.assume for k in new):
                self.assume.update(new)
                continue
            return
        self.broken = "no accepted program after ten attempts"


    def module_at(self, d):
        """module a diagnostic belongs to"""
        sp = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        ln = sp[0]["line_start"]
        f = self.at(ln)
        if f:
            return f["module"]
        for i in range(min(ln, len(self.lines)) - 1, -1, -1):
            m = re.match(r"pub mod (\w+) \{", self.lines[i])
            if m:
                return next((x for x in self.cfg["modules"] if x.split("::")[-1] == m.group(1)), None)
        return None

    def sort(self, errs):
        """files the verifier's complaints under failed, lemfail, lemundec; returns the undecided functions"""
        new = {}
        for d in errs:
            sp = [s for s in d["spans"] if s["is_primary"]] + [s for s in d["spans"] if not s["is_primary"]]
            f = None
            # a failed precondition names the callee's clause too: the obligation belongs to the caller
            order = sorted(sp, key=lambda s: 1 if (s.get("label") or "").startswith("failed precondition") else 0)
            for s in order:
                f = self.at(s["line_start"])
                if f:
                    break
            msg = d["rendered"]
            undecided = re.search(r"[Rr]esource limit|rlimit|timed? ?out|recursion depth", d["message"])
            if f is None:
                nm = self.item(order[0]["line_start"])
                (self.lemundec if undecided else self.lemfail).setdefault(nm, []).append(msg)
                continue
            k = f["module"] + "|" + f["key"]
            if undecided:
                new[k] = "resource limit"
            elif f["missing"] or f["errors"]:
                new[k] = "a loop or anchor of its proof is gone: " + "; ".join(map(str, f["missing"] + f["errors"]))
            else:
                self.failed.setdefault(k, []).append(msg)
        for k in list(self.failed):
            if k in new:
                del self.failed[k]
        for k in list(self.lemundec):
            if k in self.lemfail:
                del self.lemundec[k]
        return new


def frame(lines, fns):
    """text of every extracted function, and per module everything outside function bodies, as line hashes"""
    hh = lambda t: hashlib.sha256(t.encode()).hexdigest()[:12]
    norm = lambda ls: [x for x in (re.sub(r"\s+", " ", l).strip() for l in ls) if x and not x.startswith("//")]
    body = set()
    out = {}
    for f in fns:
        if not f["end"]:
            continue
        t = lines[f["start"] - 1:f["end"]]
        out[f["module"] + "|" + f["key"]] = hh("\n".join(norm(t)))
        b = next((i for i, l in enumerate(t) if l.strip() == "{"), None)
        if b is not None:
            body.update(range(f["start"] - 1 + b, f["end"]))
    rest, path = {}, []
    for i, l in enumerate(lines):
        if i in body:
            continue
        m = re.match(r"pub mod (\w+) \{$", l)
        if m:
            path.append(m.group(1))
        elif path and l.strip() == "} // mod " + path[-1]:
            path.pop()
        else:
            rest.setdefault("::".join(path), []).extend(hh(x) for x in norm([l]))
    return out, rest


def unchanged(lines, fns):
    """Functions whose extracted text is the one proved on the unchanged tree, provided that every declaration and every
    contract of that tree is still there: the obligations of such a function are the same, so a complaint about it
    is the solver's. None if a declaration or contract changed."""
    try:
        pf, pr = json.load(open(V + "/specs/pristine.json"))
    except Exception:
        return None
    cf, cr = frame(lines, fns)
    for m, ls in cr.items():
        it = iter(ls)
        if not all(x in it for x in pr.get(m, ["?"])):
            return None
    return set(k for k, h in cf.items() if pf.get(k) == h)


def closure(fns, pid):
    by = {}
    for f in fns:
        by.setdefault(f["key"].split("::")[-1], []).append(f)
    own = [f for f in fns if pid in (f["props"] or "").split(",")]
    seen, todo = set(), list(own)
    while todo:
        f = todo.pop()
        k = f["module"] + "|" + f["key"]
        if k in seen:
            continue
        seen.add(k)
        for c in f["callees"]:
            todo.extend(by.get(c, []))
    return set(f["module"] + "|" + f["key"] for f in own), seen


def canary(ver):
    """every function under contract must be able to reach its start: assert(false) there must fail"""
    rc, o, e = sh([V + "/vtool/target/debug/vtool", "--src", REPO + "/src", "--specs", V + "/specs", "--out", ver.work + "/c.rs", "--map", ver.work + "/c.json", "--modules", ",".join(ver.cfg["modules"]), "--canary"] + (["--assume", ",".join(ver.assume)] if ver.assume else []), 120)
    if rc != 0:
        return None
    m = json.load(open(ver.work + "/c.json"))
    mods = [x for mm in ver.cfg["modules"] for x in ("--verify-only-module", mm)]
    rc, o, e = sh(["verus", ver.work + "/c.rs"] + mods + ["--triggers-mode", "silent", "--num-threads", "8", "--error-format=json"], 420, cwd=ver.work)
    lines = set()
    for l in e.split("\n"):
        if l.startswith("{"):
            d = json.loads(l)
            if d["level"] == "error":
                for s in d["spans"]:
                    lines.add(s["line_start"])
    live, dead = 0, []
    for f in m["functions"]:
        if f["status"] != "ok" or f["module"] not in ver.cfg["modules"]:
            continue
        if any(f["start"] <= x <= f["end"] for x in lines):
            live += 1
        else:
            dead.append(f["module"] + "|" + f["key"])
    return live, dead


# ---------------------------------------------------------------- main

def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = json.load(open(V + "/checks.json"))[pid]
    work = V + "/build/" + pid
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    os.makedirs(V + "/evidence", exist_ok=True)
    known = []
    if os.path.exists(V + "/known-findings.txt"):
        for l in open(V + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))

    # harness in the background while the verifier runs
    binp, hooks, hmsg = build_harness()
    hp = None
    hout = work + "/h.json"
    if binp:
        hp = subprocess.Popen([binp, "run", pid, str(seed), tier, hout], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
    htimeout = cfg.get("htimeout", {"quick": 240, "thorough": 3000}[tier])
    hstart = time.time()

    build_vtool()
    ver = Ver(pid, cfg, work, tier)
    if cfg.get("modules"):
        ver.go()
    can = canary(ver) if cfg.get("modules") and not ver.broken and (tier == "thorough" or cfg.get("canary", True)) and not ver.failed else None

    # harness result
    fails, tests = [], []
    hnote = ""
    if hp:
        crashed = None
        try:
            rc = hp.wait(timeout=max(1, htimeout - (time.time() - hstart)))
            if rc not in (0, 1) or not os.path.exists(hout):
                crashed = "the process ended with status %d" % rc
        except subprocess.TimeoutExpired:
            hp.kill()
            hp.wait()
            crashed = "it did not finish in %d s" % htimeout
        if crashed is None:
            h = json.load(open(hout))
            fails, tests = h["failures"], h["tests"]
        else:
            # find the culprit, one test at a time, with the case being run written to a file
            rc, o, e = sh([binp, "list"])
            names = [l.split()[1] for l in o.split("\n") if l.startswith(pid + " ")]
            per = max(20, 300 // max(1, len(names)))
            for n in names:
                tr = work + "/trace"
                rc, o, e = sh([binp, "run", pid, str(seed), tier, hout, "--only", n, "--trace", tr], per)
                if rc in (0, 1) and os.path.exists(hout):
                    h = json.load(open(hout))
                    fails += h["failures"]
                    tests += h["tests"]
                elif os.path.exists(tr):
                    t = open(tr).read().split()
                    # confirm the single case misbehaves on its own
                    rc2, o2, e2 = sh([binp, "case", t[0], t[1], t[2]], 60)
                    if rc2 not in (0, 1, 2):
                        fails.append({"test": t[0], "case_seed": t[1], "index": t[2], "message": "does not terminate within 60 s" if rc2 == -999 else "the process ended with status %d" % rc2})
                    elif rc2 == 1:
                        fails.append({"test": t[0], "case_seed": t[1], "index": t[2], "message": o2.strip()})
            if not fails:
                hnote = "harness: " + crashed + ", not reproduced by a single case"
    else:
        hnote = "harness does not build against this tree: " + hmsg[-800:]

    # known findings
    kf = []
    rest = []
    for f in fails:
        k = next((x for x in known if x[0] == f["test"] + ":" + re.sub(r"\s+", "_", f["message"])[:60]), None)
        (kf if k else rest).append((f, k))
    for f, k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    fails = [f for f, k in rest]

    own, clo = closure(ver.fns, pid)
    same = unchanged(ver.lines, ver.fns) if (ver.failed or ver.lemfail) else None
    unstable = []
    if same is not None:
        unstable = [k for k in ver.failed if k in same] + ["lemma " + k for k in ver.lemfail]
        ver.failed = {k: v for k, v in ver.failed.items() if k not in same}
        ver.lemfail = {}
    ownfail = {k: v for k, v in ver.failed.items() if k in own}
    depfail = {k: v for k, v in ver.failed.items() if k not in own}
    ownlem = {k: v for k, v in ver.lemfail.items()} if cfg.get("lemmas") else {}

    bd = [b for b in ver.breakdown]
    total = len(bd)
    discharged = min(total, sum(1 for b in bd if b["success"]) + len(set(ver.reseeded)))
    text = "\n".join(ver.lines) if getattr(ver, "lines", None) else ""
    trusted = trusted_base(text)
    fns_ok = [f for f in ver.fns if f["status"] == "ok" and f["module"] in cfg.get("modules", [])]
    undecided = dict(ver.assume)
    for f in ver.fns:
        if f["status"] in ("unsupported", "lost") and (f["module"] + "|" + f["key"]) not in undecided:
            undecided[f["module"] + "|" + f["key"]] = f["status"] + ": " + "; ".join(map(str, f["errors"]))
    for k in unstable:
        undecided[k] = "not reproved, though neither its text nor any contract changed"
    for k in ver.lemundec:
        undecided["lemma " + k] = "resource limit"
    if getattr(ver, "map", None) and ver.map["errors"]:
        undecided["extraction"] = "; ".join(map(str, ver.map["errors"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": total,
            "discharged": discharged,
            "checker_cmd": ver.cmd,
            "trusted_base": trusted + cfg.get("trusted", []),
            "back_end": "Verus 0.2026.09.13 with Z3 (SMT)",
            "functions_under_contract": len(fns_ok),
            "functions_of_this_property": sorted(k for k in own),
            "closure": len(clo),
            "solver_ms": ver.smt_ms,
            "verifier_runs": ver.runs,
            "not_proved": undecided,
            "discharged_under_another_seed": ver.reseeded,
            "failed": sorted(ver.failed) + sorted(ver.lemfail),
            "vacuity": ({"functions_whose_entry_is_reachable": can[0], "unreachable": can[1]} if can else "not run"),
            "bounded_standin": {"tests": tests, "hooks": hooks, "note": hnote},
            "extraction_drops": "lifetimes and PhantomData; debug_assert! becomes a proof obligation; raw pointers become (allocation, offset) pairs into a ghost heap of byte arrays; derived impls and fmt impls are not extracted",
        },
        "wall_s": 0,
    }
    if "explanation" in cfg:
        ev["coverage"]["explanation"] = cfg["explanation"]
    if ver.broken:
        ev["coverage"]["verifier_unusable"] = ver.broken
    code = 0
    rp = V + "/evidence/replay-%s.txt" % pid
    if os.path.exists(rp):
        os.remove(rp)
    if fails:
        with open(rp, "w") as r:
            for f in fails:
                r.write("property %s\nfailing case: %s %s %s\n%s\nreplay: cd /verif/harness && RUSTFLAGS='--cfg verif_hooks' cargo run --offline -- case %s %s %s\n\n" % (pid, f["test"], f["case_seed"], f["index"], f["message"], f["test"], f["case_seed"], f["index"]))
            for k, v in list(ver.failed.items()) + list(ver.lemfail.items()):
                r.write("failed obligation in %s\n%s\n" % (k, "\n".join(v)))
        for f in fails:
            print("case %s: %s" % (f["test"], f["message"][:600]))
        for k in ownfail:
            print("failed obligation: " + k)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif ownfail or ownlem:
        with open(rp, "w") as r:
            r.write("property %s: no failing input found; these obligations were discharged on the unchanged tree and are not on this one\n\n" % pid)
            for k, v in list(ownfail.items()) + list(ownlem.items()):
                r.write("failed obligation in %s\n%s\n" % (k, "\n".join(v)))
        for k, v in list(ownfail.items()) + list(ownlem.items()):
            print("failed obligation: %s\n%s" % (k, v[0][:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        code = 1
    else:
        for k in depfail:
            print("note: a contract this property uses is not proved: " + k)
        for k, v in undecided.items():
            print("note: not proved (bounded stand-in only): %s (%s)" % (k, v[:200]))
        if ver.broken:
            print("note: verifier gave no answer (bounded stand-in only): " + ver.broken[:400])
        if hnote:
            print("note: " + hnote)
        if not tests and (ver.broken or undecided or depfail or hnote or not cfg.get("modules")):
            if not (tests or (cfg.get("modules") and not ver.broken and not undecided)):
                code = 2
        if can and can[1]:
            print("note: entry not shown reachable: " + ", ".join(can[1]))
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    if code == 0:
        print("%s: %d of %d obligations discharged in %d functions under contract; %d bounded cases; %.0f s" % (pid, discharged, total, len(fns_ok), sum(t["cases"] for t in tests), ev["wall_s"]))
    sys.exit(code)


def trusted_base(text):
    """mechanical scan of what the verifier was told to believe"""
    out = []
    lines = text.split("\n")
    mod = []
    for i, l in enumerate(lines):
        if "external_body" in l or "external_fn_specification" in l or "assume_specification" in l or "uninterp" in l:
            for k in range(i, min(i + 8, len(lines))):
                m = re.search(r"\b(fn|struct) (\w+)", lines[k])
                if m:
                    out.append(m.group(2))
                    break
        for w in ("assume(", "admit("):
            if w in l and not l.strip().startswith("//"):
                out.append("%s in line %d" % (w, i + 1))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return ["axiom or trusted item: " + x for x in seen]


if __name__ == "__main__":
    main()
