"""Building the specification and the harness, running them, judging."""
import fcntl, hashlib, json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
REPO = "/repo"

TOOLCHAIN = "1.90.0"


class ToolError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not re.match(
        r"(RUST|CARGO_(TARGET|INCR|PROFILE|BUILD|ENCODED)|JVM|JAVA)", k)}
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN=TOOLCHAIN,
             RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", NO_COLOR="1")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return e


def run(cmd, timeout, cwd=VERIF, ok=(0,), extra=None, out=None):
    """Runs a command; anything but an expected exit is an error of the check."""
    en = env()
    en.update(extra or {})
    r = subprocess.run(cmd, cwd=cwd, env=en, timeout=timeout, stdin=subprocess.DEVNULL,
                       stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if ok is not None and r.returncode not in ok:
        raise ToolError("%s: exit %d\n%s\n%s" % (" ".join(cmd), r.returncode, (r.stdout or "")[-3000:], (r.stderr or "")[-6000:]))
    return r


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.path = os.path.join(TARGET, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *_):
        self.f.close()


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()


def spec_files():
    return [os.path.join(SPEC, f) for f in os.listdir(SPEC) if f.endswith(".qnt")]


def oracle():
    """Translates the specification to Rust, unless that has been done."""
    gen = os.path.join(HARNESS, "gen")
    key = digest(spec_files() + [os.path.join(VERIF, "tools", "q2rs.py")])
    with Lock("spec"):
        stamp = os.path.join(gen, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(os.path.join(gen, "spec.rs")):
            return
        os.makedirs(gen, exist_ok=True)
        ir = os.path.join(gen, "ir.json")
        run(["quint", "typecheck", "spec/history.qnt", "--out", ir], 120)
        new = os.path.join(gen, "spec.rs.new")
        run(["python3", "tools/q2rs.py", ir, new], 120)
        cur = os.path.join(gen, "spec.rs")
        if not os.path.exists(cur) or open(cur).read() != open(new).read():
            os.replace(new, cur)
        else:
            os.remove(new)
        os.remove(ir)
        open(stamp, "w").write(key)


CONFIGS = {
    # name: (cargo arguments, directory of the profile, layouts)
    "main": (["--profile", "checked"], "checked", (16, 32, 64, 128)),
    "release": (["--release"], "release", (16, 32, 64, 128)),
    "i64": (["--profile", "checked", "--no-default-features", "--features", "std,i64,codecs,xml"], "checked", (64,)),
    "nostd": (["--profile", "checked", "--no-default-features", "--features", "i64,i128,codecs"], "checked", (64, 128)),
    "small": (["--release", "--no-default-features", "--features", "i16,i32"], "release", (16, 32)),
}


def build(config="main"):
    """Builds the harness, and with it the library as it is in /repo now."""
    oracle()
    args, sub, _ = CONFIGS[config]
    target = os.path.join(TARGET, config)
    with Lock(config):
        run(["cargo", "build", "--offline", "--quiet", "--target-dir", target] + args, 850, cwd=HARNESS)
    return os.path.join(target, sub, "conform")


def quint_judge(cases, spec="spec/fixnum.qnt", module="fixnum", work=None, timeout=600):
    """[(definition, [ITF values])] -> [ITF value], by Quint's own evaluator."""
    if not cases:
        return []
    a, b = os.path.join(work, "cases.ndjson"), os.path.join(work, "results.ndjson")
    with open(a, "w") as f:
        for d, args in cases:
            f.write(json.dumps({"def": d, "args": args}) + "\n")
    run(["node", "--stack-size=4000", "tools/qjudge.js", spec, module, a, b], timeout)
    r = [json.loads(l) for l in open(b)]
    if len(r) != len(cases):
        raise ToolError("the Quint evaluator answered %d of %d cases" % (len(r), len(cases)))
    return r


def plain(o):
    """ITF to something a person can read."""
    if isinstance(o, dict):
        if "#bigint" in o:
            return int(o["#bigint"])
        if "tag" in o:
            v = o["value"]
            if v is None or isinstance(v, dict) and "#tup" in v:
                return o["tag"]
            return {o["tag"]: plain(v)}
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, list):
        l = [plain(x) for x in o]
        if l and all(isinstance(x, int) and 32 <= x < 127 for x in l):
            return "".join(map(chr, l))
        return l
    return o


def readable(e):
    return "%s.%s %s -> %s" % (e.get("via"), e["call"]["tag"], json.dumps(plain(e["call"]["value"]), ensure_ascii=True),
                               json.dumps(plain(e["outcome"]), ensure_ascii=True))


def big(n):
    return {"#bigint": str(n)}


def perturb(o, i):
    """A different outcome."""
    t, v = o["tag"], o["value"]
    if t in ("Ret", "F64"):
        return {"tag": t, "value": big(int(v["#bigint"]) + (7 if t == "F64" else 1 if i % 2 else -1))}
    if t == "Truth":
        return {"tag": t, "value": not v}
    if t == "Text":
        return {"tag": t, "value": v + [big(48)]}
    if t == "Cut":
        return {"tag": t, "value": v[:-1] + [big(int(v[-1]["#bigint"]) ^ 1)] if v else [big(48)]}
    if t == "Bytes":
        return {"tag": t, "value": v[:-1] + [big(int(v[-1]["#bigint"]) ^ 1)] if v else [big(0)]}
    if t == "Decimal":
        return {"tag": t, "value": {"m": v["m"], "e": big(int(v["e"]["#bigint"]) + 1)}}
    if t == "Overflow":
        return {"tag": "Ret", "value": big(0)}
    return {"tag": "Overflow", "value": {"#tup": []}}


def known_findings(prop):
    """(text, event) of the findings that have been recorded, not repaired."""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) event=(\{.*\}) what=(.*)", line.rstrip("\n"))
            if m and m[1] == prop:
                r.append((m[3], json.loads(m[2])))
    return r


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.work = os.path.join(TARGET, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVIDENCE, exist_ok=True)
        self.coverage = {}
        self.assumptions = []
        self.level = "exploration"
        self.violations = []
        self.known = known_findings(prop)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def violation(self, what, record):
        """`record` is what is needed to see the failure again."""
        if isinstance(record, dict):
            for text, event in self.known:
                if all(record.get(k) == v for k, v in event.items()):
                    line = "KNOWN-FINDING: property=%s %s" % (self.prop, text)
                    if line not in self.coverage.setdefault("known_findings", []):
                        self.coverage["known_findings"].append(line)
                        print(line, flush=True)
                    return
        self.violations.append((what, record))

    def finish(self):
        path = os.path.join(EVIDENCE, "%s.violation.ndjson" % self.prop)
        if os.path.exists(path):
            os.remove(path)
        if self.violations:
            with open(path, "w") as f:
                for what, rec in self.violations[:50]:
                    f.write((rec if isinstance(rec, str) else json.dumps(rec)) + "\n")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": self.coverage, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        tmp = os.path.join(EVIDENCE, "%s.json.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % self.prop))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for what, _ in self.violations[:10]:
                print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        print("property %s held on everything explored (%.0f s)" % (self.prop, time.time() - self.t0))
        return 0

    # ------------------------------------------------------------ conformance
    def conform(self, binary, plan, scale, seconds, tag, extra=()):
        """Runs a plan.  Returns the summary, or None after a crash or a hang."""
        out = self.dir(tag)
        cmd = [binary, "check", plan, "--out", out, "--seed", str(self.seed), "--scale", str(scale), "--seconds", str(seconds)]
        cmd += list(extra)
        r = run(cmd, seconds + 120, ok=None)
        if r.returncode == 0:
            return json.load(open(os.path.join(out, "summary.json")))
        if r.returncode == 4:
            for line in open(os.path.join(out, "stuck.ndjson")):
                self.singly(binary, line, out)
        elif r.returncode < 0:
            # a signal: find the event that brings it about
            log = self.dir(tag + "-log")
            for x in os.listdir(log):
                os.remove(os.path.join(log, x))
            r = run(cmd, 8 * seconds + 300, ok=None, extra={"CONFORM_LOG": log})
            for x in sorted(os.listdir(log)):
                for line in open(os.path.join(log, x)):
                    self.singly(binary, line, out)
        if not self.violations:
            raise ToolError("%s: exit %d\n%s" % (" ".join(cmd), r.returncode, r.stderr[-4000:]))
        return None

    def singly(self, binary, line, out):
        if not line.strip():
            return
        p = os.path.join(out, "single.ndjson")
        open(p, "w").write(line)
        try:
            r = run([binary, "replay", p], 60, ok=None)
        except subprocess.TimeoutExpired:
            self.violation("does not return: " + line.strip(), line.strip())
            return
        if r.returncode < 0:
            self.violation("dies by signal %d: %s" % (-r.returncode, line.strip()), line.strip())

    def confirm(self, tag):
        """Takes what the compiled specification rejected to Quint's evaluator,
        together with a sample of what it accepted."""
        out = self.dir(tag)
        load = lambda n: [json.loads(l) for l in open(os.path.join(out, n))]
        rejects, sample = load("rejects.ndjson"), load("sample.ndjson")
        pairs = load("unrelated.ndjson")
        limit = 700 if self.quick else 4000
        if len(sample) > limit:
            # the first of every kind come first; then every n-th of the rest
            head = sample[: limit // 2]
            rest = sample[limit // 2:]
            sample = head + rest[:: max(1, len(rest) // (limit // 2))][: limit - len(head)]
        bad = [dict(e, outcome=perturb(e["outcome"], i)) for i, e in enumerate(sample)]
        cases = [("accept", [e["call"], e["outcome"]]) for e in rejects + sample + bad]
        cases += [("widens", [big(p["narrow"]["w"]), p["narrow"]["outcome"], p["wide"]["outcome"]]) for p in pairs]
        res = quint_judge(cases, work=out)
        n, m = len(rejects), len(sample)
        for e, ok in zip(rejects, res[:n]):
            if ok:
                raise ToolError("Quint accepts what its translation rejects: " + readable(e))
            self.violation(readable(e) + ("  (%s)" % e["note"] if e.get("note") else ""), e)
        for e, ok in zip(sample, res[n:n + m]):
            if not ok:
                raise ToolError("Quint rejects what its translation accepts: " + readable(e))
        for p, ok in zip(pairs, res[n + 2 * m:]):
            if ok:
                raise ToolError("Quint relates what its translation does not: " + json.dumps(p))
            self.violation("layouts disagree: %s / %s" % (readable(p["narrow"]), readable(p["wide"])), p)
        # the same verdict on outcomes that have been tampered with
        f, g = os.path.join(out, "bad.ndjson"), os.path.join(out, "bad.out")
        with open(f, "w") as h:
            for e in bad:
                h.write(json.dumps(e) + "\n")
        return dict(sample=sample, rejects=rejects, tampered=bad, verdicts=res[n + m:n + 2 * m], files=(f, g))

    def tampered(self, binary, c):
        run([binary, "judge", *c["files"]], 120)
        mine = [l.strip() == "true" for l in open(c["files"][1])]
        if mine != c["verdicts"]:
            e = next(e for e, a, b in zip(c["tampered"], mine, c["verdicts"]) if a != b)
            raise ToolError("Quint and its translation disagree about " + readable(e))
        return sum(not x for x in mine), len(mine)
