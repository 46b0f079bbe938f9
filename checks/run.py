#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [quick|thorough]

Every part of a check records runs of the real code (harness/, built against /repo) and
lets TLC decide whether the recorded runs are behaviours of a specification in specs/,
or model-checks a specification, or does both: replays the behaviours of a model-checked
specification into the real code.
"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from parts import CHECKS  # noqa: E402

TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "debug", "gxh")
WORKBIN = os.path.join(TARGET, "debug", "gxw")      # the recorder with a scalar type of its own (C07)
SPECS = os.path.join(VERIF, "specs")
WORKERS = str(min(8, os.cpu_count() or 2))
RECORD_TIMEOUT = {"quick": 150, "thorough": 900}


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    for base, sub in ((REPO, ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo")), (VERIF, ("harness",))):
        for s in sub:
            p = os.path.join(base, s)
            files = [p] if os.path.isfile(p) else [
                os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs if "/target" not in d]
            for f in sorted(files):
                h.update(f.encode())
                h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
    env.pop("RUSTFLAGS", None)
    cwd = os.path.join(VERIF, "harness")
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "verif-stamp")
    with open(os.path.join(TARGET, "verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(BIN):
            return
        # do not trust modification times: the code under test may have been put in place by a copy
        if os.path.exists(stamp):
            os.remove(stamp)
            subprocess.run(["cargo", "clean", "--offline", "-p", "geo-crossings", "-p", "gxh"], cwd=cwd, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for b in (WORKBIN, BIN):
            if os.path.exists(b):
                os.remove(b)
            p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", os.path.basename(b)], cwd=cwd, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                log(p.stdout[-4000:])
                if b == BIN:
                    raise ToolError("harness does not build against /repo")
        with open(stamp, "w") as f:
            f.write(want)


# ---------------------------------------------------------------- recording
def record(args, out, timeout, binary=BIN):
    """Runs the recorder. Returns "" or how it failed to come back."""
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
    with open(out, "wb") as f:
        try:
            p = subprocess.run([binary] + args, stdout=f, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return "no-answer"
    if p.returncode != 0:
        return "crash(%d)" % p.returncode
    return ""


def read_cases(path):
    cases = []
    with open(path, "rb") as f:
        for line in f:
            if line.endswith(b"}\n"):
                cases.append(line.decode())
    return cases


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.rc = rc
        # TLC prints tuples over several lines when they are long
        self.out = out
        self.rejects = [(int(a), int(b), c) for a, b, c in
                        re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(-?\d+),\s*"([^"]*)"\s*>>', out)]
        self.ok = [int(a) for a in re.findall(r'<<\s*"OK",\s*(\d+)\s*>>', out)]
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = (int(x) for x in m.groups()) if m else (0, 0, -1)
        self.finished = "Model checking completed. No error has been found." in out
        m = re.search(r"Finished computing initial states: (\d+) distinct|Finished computing initial states: (\d+) state", out)
        self.init = int(next(g for g in m.groups() if g)) if m else 0


def tlc(spec, cfg, env, work, timeout, workers=WORKERS):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.update(env)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx10g -Xss64m -XX:+UseParallelGC"
    cmd = ["tlc", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, spec + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish %s in %ds" % (spec, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.stdout, p.returncode)


def validate(cases, spec, cfg, what, work, timeout):
    """Validates recorded runs. Returns (rejects {id: (step, why)}, states, transitions)."""
    rejects, states, trans = {}, 0, 0
    left = list(cases)
    for attempt in range(6):
        path = os.path.join(work, "trace.ndjson")
        with open(path, "w") as f:
            f.writelines(left)
        r = tlc(spec, cfg, {"GX_TRACE": path, "GX_WHAT": what or ""}, work, timeout)
        if r.finished:
            break
        # A recorded value outside the types of the specification: find the run it belongs to
        # (the error trace names it), count it as rejected, and go on without it.
        m = re.search(r"Error: The behavior up to this point is:.*?/\\ c = (\d+)", r.out, re.S) or \
            re.search(r"State 1:.*?/\\ c = (\d+)", r.out, re.S)
        if not m or attempt == 5:
            log(r.out[-3000:])
            raise ToolError("TLC failed on %s" % spec)
        k = int(m.group(1)) - 1
        cid = json.loads(left[k])["id"]
        log("run %d of %s has values outside the specification's types" % (cid, spec))
        rejects[cid] = (0, "unmodelled-values")
        del left[k]
        if not left:
            return rejects, states, trans
    for cid, step, why in r.rejects:
        rejects.setdefault(cid, (step, why))
    # every run has been followed to its end or rejected
    want = {json.loads(x)["id"] for x in left}
    got = set(r.ok) | {x[0] for x in r.rejects}
    if r.left != 0 or want != got or set(r.ok) & set(rejects):
        log(r.out[-3000:])
        raise ToolError("%s: %d of %d recorded runs were not decided" % (spec, len(want - got), len(want)))
    return rejects, states + r.distinct, trans + max(0, r.generated - r.init)


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="gx-%s-" % prop)
        self.states = self.trans = self.traces = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.reasons = {}

    def n(self, part, key="n"):
        q = part.get(key)
        return part.get(key + "_thorough", q) if self.tier == "thorough" else q

    def fail(self, part, case, step, why, args):
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, part.get("name", "x"), len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "part": part.get("name"), "why": why, "step": step, "recorder": args,
                       "spec": part.get("spec"), "cfg": part.get("cfg"), "what": part.get("what"),
                       "case": json.loads(case) if case else None}, f)
        self.violations.append((path, why))

    def recorded(self, part, args, tag):
        """Record, and turn a recorder that does not come back into a violation."""
        path = os.path.join(self.work, "rec.ndjson")
        binary = part.get("binary", BIN)
        if not os.path.exists(binary):
            raise ToolError("%s does not build against /repo" % os.path.basename(binary))
        err = record(args, path, RECORD_TIMEOUT[self.tier], binary)
        cases = read_cases(path)
        if err:
            self.fail(part, None, len(cases) + 1, err, args)
        elif not cases:
            raise ToolError("recorder produced nothing: %s" % args)
        return cases

    def trace(self, part):
        total = self.n(part)
        batch = part.get("batch", 8000)
        done = k = 0
        while done < total:
            n = min(batch, total - done)
            args = part["rec"] + ["--n", str(n), "--seed", str(self.seed * 1000 + k)]
            self.judge(part, self.recorded(part, args, "t"), args)
            done += n
            k += 1
            if len(self.violations) > 20:
                break

    def exhaustive(self, part):
        """Every input of a small scope: all of them, or in the quick tier every stride-th."""
        k = part["chunks"] if self.tier == "thorough" else part["stride"]
        offs = range(k) if self.tier == "thorough" else [self.seed % k]
        for off in offs:
            args = part["rec"] + ["--stride", str(k), "--off", str(off)]
            self.judge(part, self.recorded(part, args, "x"), args)
            if len(self.violations) > 20:
                break
        self.notes.append("%s: %s of the scope" % (part["name"], "all" if len(offs) == k else "1/%d" % k))

    def judge(self, part, cases, args):
        if not cases:
            return
        rej, st, tr = validate(cases, part["spec"], part.get("cfg", part["spec"] + ".cfg"), part.get("what"), self.work,
                               850 if self.tier == "quick" else 7200)
        self.states += st
        self.trans += tr
        self.traces += len(cases)
        if len(self.samples) < 6:
            i = min(len(cases) - 1, 7 + 13 * len(self.samples))
            s = cases[i].strip()
            self.samples.append({"part": part["name"], "recorded_run": s if len(s) < 1500 else s[:1500] + "..."})
        by = {json.loads(x)["id"]: x for x in cases} if rej else {}
        for cid, (step, why) in sorted(rej.items()):
            self.reasons[why] = self.reasons.get(why, 0) + 1
            self.fail(part, by.get(cid), step, why, args)

    def model(self, part):
        """Model-check a specification; a violated invariant is an error of the specification."""
        cfg = self.n(part, "cfg")
        r = tlc(part["spec"], cfg, {"GX_TRACE": "", "GX_WHAT": ""}, self.work, 3600, part.get("workers", WORKERS))
        if not r.finished:
            log(r.out[-3000:])
            raise ToolError("model %s is not sound" % part["spec"])
        self.states += r.distinct
        self.trans += max(0, r.generated - r.init)
        self.notes.append("model %s (%s): %d distinct states, %d generated" % (part["spec"], cfg, r.distinct, r.generated))
        return r

    def design(self, part):
        """Model-check the design of an algorithm against what it promises, over small scopes; and that
        each flaw planted in the design is noticed (an error of this machinery if it is not)."""
        base = open(os.path.join(SPECS, part["spec"] + ".cfg")).read()

        def check(consts, name):
            text = base
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), text)
                assert n == 1, k
            cfg = os.path.join(self.work, name + ".cfg")
            with open(cfg, "w") as f:
                f.write(text)
            return tlc(part["spec"], cfg, {"GX_TRACE": "", "GX_WHAT": ""}, self.work, 3600)
        thorough = self.tier == "thorough"
        for consts in part["scopes"] + (part.get("scopes_thorough", []) if thorough else []):
            r = check(consts, "design")
            if not r.finished:
                log(r.out[-4000:])
                raise ToolError("design %s does not refine its promise for %s" % (part["spec"], consts))
            self.states += r.distinct
            self.trans += max(0, r.generated - r.init)
            self.notes.append("design %s %s: %d inputs, %d distinct states" % (
                part["spec"], " ".join("%s=%s" % kv for kv in consts.items()), r.init, r.distinct))
        for flaw, consts in part["flaws"] if thorough else part["flaws"][:1]:
            r = check(dict(consts, Flaw='"%s"' % flaw), "flaw")
            if "is violated" not in r.out:
                raise ToolError("design %s: nothing notices the flaw %s" % (part["spec"], flaw))
            self.notes.append("design %s: flaw %s noticed" % (part["spec"], flaw))

    def splay_replay(self, part):
        """Every transition of the model-checked splay tree, replayed into the real map and set."""
        r = self.model(part)
        # transitions are printed as "T|state|op|key|state'"
        edges = re.findall(r'"T\|([^|"]*)\|([\w@]+)\|(\d+)\|([^|"]*)"', r.out)
        if not edges:
            raise ToolError("no transitions printed")
        path = {"<<>>": []}
        pending = {}
        for a, op, k, b in edges:
            pending.setdefault(a, []).append((op, k, b))
        queue = ["<<>>"]
        while queue:
            a = queue.pop(0)
            for op, k, b in pending.get(a, []):
                if b not in path:
                    path[b] = path[a] + [(op, k)]
                    queue.append(b)
        look = ["find", "contains", "get"]
        lines, tag = [], 0
        for i, (a, op, k, b) in enumerate(sorted(edges)):
            ops = path[a] + [(op, k)]
            out = []
            for o, key in ops:
                tag = (tag + 1) % 900
                o, at, fuse = o.partition("@")      # the comparison panics after so many answers
                if o == "ins":
                    out.append("ins%s %s %d %d" % (at + fuse, key, tag, 100 + tag))
                elif o == "rem":
                    out.append("rem%s %s" % (at + fuse, key))
                elif o == "get":
                    out.append("%s%s %s" % (look[(i + len(out)) % (3 if part["kind"] == "map" else 2)], at + fuse, key))
                else:
                    out.append("%s%s %s" % (o, at + fuse, key))
            out += ["len", "min", "max", "next %s" % k, "prev %s" % k, "find %s" % k,
                    "iter " + " ".join(str((i >> j) & 1) for j in range(10))]
            lines.append(";".join(out))
        script = os.path.join(self.work, "script")
        with open(script, "w") as f:
            f.write("\n".join(lines) + "\n")
        args = ["splay", "--mode", part["kind"], "--script", script]
        p = dict(part, spec="OrderedMapTrace", cfg="OrderedMapTrace.cfg")
        self.notes.append("%d transitions of the splay model replayed into the real %s" % (len(lines), part["kind"]))
        cases = self.recorded(p, args, "s")
        for i in range(0, len(cases), 20000):
            self.judge(p, cases[i:i + 20000], args)

    def big(self, part):
        """Histories over large collections, one process each; the model is the trivial one."""
        n = self.n(part)
        runs, args = [], []
        for sset in ("0", "1"):
            for kind in ("drop", "clear", "iter", "back", "all"):
                for shape in ("asc", "desc", "zigzag", "rand"):
                    args = ["splay", "--mode", "big", "--kind", kind, "--shape", shape, "--set", sset, "--n", str(n)]
                    p = dict(part, name="%s-%s-%s-%s" % (part["name"], kind, shape, sset))
                    for c in self.recorded(p, args, "b"):
                        runs.append(json.dumps(dict(json.loads(c), id=len(runs) + 1)) + "\n")
        self.judge(part, runs, args)

    def amount(self, part):
        """How much work long histories, or inputs of many segments, take."""
        n = str(self.n(part))
        if part["what"] in ("sweep", "pairs"):
            part, args = dict(part, binary=WORKBIN), [part["what"], n]
        else:
            args = ["calls", "--mode", part["what"], "--n", n, "--seed", str(self.seed)]
        self.judge(part, self.recorded(part, args, "w"), args)

    def known_findings(self):
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        for line in open(path):
            if not line.startswith("known: "):
                continue
            k = json.loads(line[7:])
            if k["property"] != self.prop:
                continue
            f = os.path.join(self.work, "known")
            with open(f, "w") as h:
                h.write(k["input"] + "\n")
            out = os.path.join(self.work, "known.ndjson")
            err = record(k["rec"] + ["--input", f], out, 60)
            cases = read_cases(out)
            bad = err
            if not err:
                rej, _, _ = validate(cases, k["spec"], k["cfg"], k.get("what"), self.work, 300)
                bad = ", ".join(w for _, w in rej.values())
            if bad:
                self.known.append(k["what_fails"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what_fails"]), flush=True)

    def run(self):
        t0 = time.time()
        try:
            build()
            for part in CHECKS[self.prop]:
                if part.get("only") and part["only"] != self.tier:
                    continue
                t = time.time()
                getattr(self, part["do"])(part)
                log("%s %s: %.1fs" % (self.prop, part["name"], time.time() - t))
            self.known_findings()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.trans,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                "parts": [p["name"] for p in CHECKS[self.prop] if not p.get("only") or p["only"] == self.tier],
                "models": self.notes,
                "rejections_by_reason": self.reasons,
                "known_findings_reproduced": self.known,
            },
            "assumptions": [
                "the recorder reports what the public API returned",
                "coordinates are lattice points under a scaling that keeps every vertex of the arrangement exactly "
                "representable, except in the parts named 'round'",
                "TLC evaluates the specification correctly",
            ],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for path, why in [v for v in self.violations if v][:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
                log("   ", why)
            return 1
        print("%s: held on %d recorded runs (%d states, %.0fs)" % (self.prop, self.traces, self.states, time.time() - t0))
        return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        sys.exit(Check(prop, tier, seed).run())
    except ToolError as e:
        log("ERROR:", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
