"""Which machinery decides which property."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor

import lib
from lib import ToolError

# property: (scale of the quick check, what a case is)
PLANS = {
    "C01": (12, "operands of cadd, csub (all pairs of bytes; ends of the ranges and their sums), cneg, abs, signum (all 16-bit numbers)"),
    "C02": (12, "operands of cmul of numbers and integers in both orders; all pairs of bytes; products around the ends of the ranges"),
    "C03": (10, "operands of rmul in all modes: exact products, halves and their neighbours, products around the ends of the ranges, limb patterns"),
    "C04": (10, "operands of rdiv and recip in all modes: quotients at and near halves, around the ends of the ranges, limb patterns of the dividend and divisor"),
    "C05": (10, "division of and by integers in all modes; all pairs of bytes"),
    "C06": (10, "radicands of rsqrt: perfect squares, squares of halves, their neighbours, all 16-bit numbers"),
    "C07": (10, "operands of the saturating operations, also through a user type that relies on the provided methods"),
    "C08": (15, "operands of integral, floor, ceil, round: all 16-bit numbers in every precision, halves and their neighbours"),
    "C09": (12, "operands of half_sum in all modes, around zero and around both ends of the ranges"),
    "C10": (20, "operands of next_power_of_ten: all 16-bit numbers, powers of ten, powers of two and their neighbours"),
    "C11": (15, "operands of round_towards_zero_by, multiples of the step and their neighbours"),
    "C12": (15, "mantissas and exponents of from_decimal and to_decimal, the largest mantissas that fit, and back"),
    "C13": (15, "integers of twelve types converted to numbers, around the ends of the ranges of the source and the target; all 8 and 16-bit ones"),
    "C14": (5, "texts for from_str: numbers around halves of the last place and around the ends of the ranges, mutated and malformed ones"),
    "C15": (5, "texts for from_str_exact, as for from_str"),
    "C16": (5, "numbers shown by Display and Debug, all 16-bit ones, and parsed back"),
    "C17": (3, "bit patterns of binary64: short decimals, their neighbours, halves of the last place, ends of the ranges, subnormals, not finite ones"),
    "C18": (15, "numbers converted to binary64 and back"),
    "C20": (5, "values and texts put through serde_json, quick-xml, bincode and serde's own deserializers, by default and with each `with` module"),
    "C21": (10, "SCALE encodings, plain and compact, of numbers and of arbitrary bytes"),
    "C24": (10, "the same call on two layouts"),
    "C26": (15, "pairs of numbers compared, hashed; constants of every type"),
    "C27": (15, "operations of wrapper types defined with impl_op!"),
    "C29": (10, "JSON schemas and the JSON of the values they describe"),
}
TECHNIQUE = {
    "C34": "conformance of calls executed by interpreters of other machines",
    "C33": "uses of the macros compiled in scopes of any names, judged by what it says the names may change",
    "C19": "bounds and layouts compiled and measured, judged by its statement of what a plain value is",
    "C32": "choices of features compiled and judged by what it says they offer",
    "C31": "expressions compiled and the compiler's verdicts judged by its typing relation",
    "C22": "literals compiled and judged by it",
    "C24": "conformance of pairs of calls on two layouts to its relation of outcomes",
    "C25": "conformance of the same calls on five builds",
    "C28": "state machine, traces replayed on the library, recorded histories checked against it",
    "C30": "state machine of a ledger, an inductive invariant proved by Apalache, traces replayed on the library",
}
NOTE = ("non-trivial: operands not all zero or empty; distinct: a lower bound, counted in a bitmap of 2^30 hashes of (type, entry point, call). "
        "Every outcome is judged by the acceptance relation of spec/fixnum.qnt, translated to Rust by tools/q2rs.py; "
        "a sample of accepted events, the same events with outcomes tampered with, and every rejected event are judged again by Quint's own evaluator.")


def decide(ctx):
    f = globals().get("decide_" + ctx.prop)
    if f is None and ctx.prop in PLANS:
        f = explore
    if f is None:
        raise ToolError("no property " + ctx.prop)
    f(ctx)


def explore(ctx):
    scale, what = PLANS[ctx.prop]
    binary = lib.build("main")
    s = ctx.conform(binary, ctx.prop, scale if ctx.quick else scale * 60, 60 if ctx.quick else 900, "run")
    if s is None:
        ctx.coverage = dict(evaluations=0, distinct_nontrivial=0, rule=what, samples=[])
        return
    c = ctx.confirm("run")
    rejected, of = ctx.tampered(binary, c)
    ctx.coverage = dict(
        evaluations=s["events"], distinct_nontrivial=s["distinct"],
        rule="%s. %s" % (what, NOTE), samples=[lib.readable(e) for e in pick(c["sample"], 12)],
        outcomes=s["tally"], rejected_by_translation=s["rejected"], jobs=s["jobs"], cut_by_time=s["cut"],
        judged_by_quint=len(c["sample"]) + len(c["rejects"]), tampered_outcomes_rejected="%d of %d" % (rejected, of))
    refinement(ctx)
    ctx.assumptions = ASSUME


# property: (tests of spec/algorithms.qnt and spec/examples.qnt in the quick check, those in the
# thorough one, instances proved by Apalache in the thorough one)
REFINEMENTS = {
    "C01": ("saturating", "functional functionalUn", ""),
    "C02": ("cratesFrontPage", "functional multiply", ""),
    "C03": ("corrected cratesFrontPage", "orderOfModes monotone multiply", "arithmetic128"),
    "C04": ("corrected", "orderOfModes monotone symmetry division corrections", "arithmetic128"),
    "C05": ("corrected", "functional symmetry division", "arithmetic64most"),
    "C06": ("root4 rootInMode root", "newton orderOfModes monotone", "root255"),
    "C07": ("saturating", "functional", ""),
    "C08": ("corrected integral", "functionalUn symmetry", "arithmetic16"),
    "C09": ("halves", "orderOfModes monotone", "arithmetic64 arithmetic128"),
    "C10": ("nextPower integral", "monotone", ""),
    "C12": ("decimal", "stripped inverse", ""),
    "C14": ("text", "inverse", ""),
    "C15": ("text", "inverse", ""),
    "C16": ("text", "inverse", ""),
    "C17": ("double", "", ""),
    "C18": ("double", "", ""),
    "C20": ("text", "inverse", ""),
    "C21": ("scale", "inverse", ""),
}


def spec_tests(ctx, names):
    """Tests of the specification itself, by Quint; a failure is not the library's."""
    known = {}
    for f, main in (("algorithms", "algorithmsTest"), ("examples", "examples")):
        for m in re.findall(r"run (\w+)Test\b", open(os.path.join(lib.SPEC, f + ".qnt")).read()):
            known[m] = (f, main)
    jobs = {}
    for n in names:
        jobs.setdefault(known[n], []).append(n)
    for (f, main), l in sorted(jobs.items()):
        r = lib.run(["quint", "test", "spec/%s.qnt" % f, "--main", main, "--match", "^(%s)Test$" % "|".join(l)], 600)
        if "%d passing" % len(l) not in r.stdout:
            raise ToolError("spec/%s.qnt: %s\n%s" % (f, l, r.stdout[-2000:]))


def refinement(ctx):
    quick, deep, proofs = (x.split() for x in REFINEMENTS.get(ctx.prop, ("", "", "")))
    tests = quick + ([] if ctx.quick else deep)
    spec_tests(ctx, tests)
    proofs = [] if ctx.quick else proofs
    for p in proofs:
        apalache(ctx, "algorithms.qnt", p, init="anywhere", steps=0, timeout=1800)
    if tests:
        ctx.coverage["specification_tests"] = tests
    if proofs:
        ctx.coverage["specification_proofs"] = proofs


ASSUME = [
    "the specification says what the documentation promises",
    "the translation of the specification to Rust is faithful beyond the sample on which it is compared with Quint's evaluator",
    "the library is built with overflow checks and debug assertions; other configurations are C25's",
]


def pick(l, n):
    return l[:: max(1, len(l) // n)][:n]


# -------------------------------------------------------------------- schemas
VALIDATE = """
import json, sys
from jsonschema import Draft7Validator
known = {}
for line in open(sys.argv[1]):
    j = json.loads(line)
    k = json.dumps(j["schema"], sort_keys=True)
    if k not in known:
        Draft7Validator.check_schema(j["schema"])
        known[k] = Draft7Validator(j["schema"])
    print(json.dumps([e.message for e in known[k].iter_errors(j["value"])]))
"""


def decide_C29(ctx):
    """What is written conforms to what is called a schema."""
    explore(ctx)
    if ctx.violations:
        return
    path = os.path.join(ctx.work, "schemas.ndjson")
    lib.run([lib.build("main"), "schemas", "--seed", str(ctx.seed), "--out", path], 120)
    lines = [json.loads(l) for l in open(path)]
    verdicts = [json.loads(l) for l in lib.run(["python3-vt", "-c", VALIDATE, path], 300).stdout.splitlines()]
    if len(verdicts) != len(lines):
        raise ToolError("the schema validator answered %d of %d" % (len(verdicts), len(lines)))
    kind = lambda v: {str: "string", bool: "boolean", int: "number", float: "number", type(None): "null", list: "array", dict: "object"}[type(v)]
    points = lambda s: [lib.big(ord(c)) for c in s]

    def facts(s):
        t, only = s.get("type", []), s.get("enum", [])
        only = only + [s["const"]] if "const" in s else only
        return {"types": t if isinstance(t, list) else [t], "shortest": lib.big(s.get("minLength", 0)), "longest": lib.big(s.get("maxLength", -1)),
                "only": [points(x) if isinstance(x, str) else points(json.dumps(x)) for x in only]}
    calls, bad, where = [], [], []
    for l, errors in zip(lines, verdicts):
        if l.get("record"):
            if errors:
                ctx.violation("the schema of a record does not describe it: %s: %s" % (errors[0], json.dumps(l["value"])), l)
            continue
        v = {"kind": kind(l["value"]), "text": points(l["value"] if isinstance(l["value"], str) else json.dumps(l["value"]))}
        args = [facts(l["schema"]), lib.big(l["a"]), lib.big(l["p"]), v, not errors]
        calls.append(("acceptDescribed", args))
        where.append((l, errors))
        bad.append(("acceptDescribed", args[:3] + [dict(v, kind="number")] + args[4:]))
    bad = bad[:: max(1, len(bad) // 200)]
    res = lib.quint_judge(calls + bad, "spec/schema.qnt", "schema", ctx.dir("schema"))
    for ok, (l, errors) in zip(res, where):
        if not ok:
            ctx.violation("FixedPoint<i%d, U%d> %s is written as %s, schema %s: %s" % (l["w"], l["p"], l["a"], json.dumps(l["value"]), json.dumps(l["schema"]), errors), l)
    if any(res[len(calls):]) and not ctx.violations:
        raise ToolError("Quint accepts a number where the schema says string")
    ctx.coverage["values_validated_against_their_schema"] = len(lines)
    ctx.coverage["judged_by_quint"] += len(calls)


# ------------------------------------------------------------------- literals
WIDTHS = {16: 4, 32: 9, 64: 18, 128: 38}


def random_literals(rng, n):
    """(width, precision, text) of literals, half of them around a boundary."""
    out = []
    for _ in range(n):
        w = rng.choice([16, 32, 64, 64, 128, 128])
        p = rng.choice([0, WIDTHS[w], rng.randint(0, WIDTHS[w])])
        hi, lo = 2 ** (w - 1) - 1, -2 ** (w - 1)
        kind = rng.randrange(6)
        if kind == 0:
            a = rng.choice([hi, lo]) + rng.randint(-2, 2)
        elif kind == 1:
            a = rng.choice([1, -1]) * (10 ** rng.randint(0, WIDTHS[w]) * rng.randint(0, 9) + rng.randint(-1, 1))
        elif kind == 2:
            a = rng.choice([1, -1]) * (rng.getrandbits(w) >> rng.randrange(w))
        else:
            a = rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, w - 1))
        if kind == 3 and p:
            a = a // 10 ** rng.randint(0, p) * 10 ** rng.randint(0, p)
        m = str(abs(a)).rjust(p + 1, "0")
        t = m[:-p] + "." + m[-p:] if p else m
        if p and rng.randrange(2):
            t = t.rstrip("0")
            if t.endswith(".") and rng.randrange(4):
                t = t[:-1]
        if "." not in t and rng.randrange(4) == 0:
            t += rng.choice([".", ".0"]) if p else "."
        if rng.randrange(12) == 0:
            t = "0" * rng.randint(1, 3) + t
        out.append((w, p, ("-" if a < 0 else "") + t))
    return out


def decide_C22(ctx):
    import random
    rng = random.Random(ctx.seed * 7919 + 22)
    lits = random_literals(rng, 3000 if ctx.quick else 20000)
    # digits beyond the precision, which take the compiler long to refuse
    for _ in range(8 if ctx.quick else 40):
        w = rng.choice([16, 32, 64, 128])
        p = rng.randint(0, WIDTHS[w] - 1)
        lits.append((w, p, "%d.%s1" % (rng.randint(0, 9), "0" * p)))
    # not decimal
    lits += [(64, 9, t) for t in ("1e3", "0x10", "1_000", "0b11", "1.5e0", "1_0.5", "1.5f64", "7u8", '"1.5"', "'1'", "true", 'b"1"')]
    seen, items = set(), []
    for w, p, t in lits:
        if (w, p, t) not in seen:
            seen.add((w, p, t))
            items.append((w, p, t, VIAS[len(items) % 3]))
    # whether a literal is refused must not depend on the profile, whose checks of overflow the
    # evaluation of constants obeys as well
    with ThreadPoolExecutor(2) as ex:
        both = dict(zip(PROFILES, ex.map(lambda x: compiled(ctx, items, x), PROFILES)))
    events = []
    for profile, answers in both.items():
        if answers is None:
            ctx.coverage = dict(evaluations=len(items), distinct_nontrivial=len(items), rule="a few literals, which do not compile in 150 s", samples=[str(i[:3]) for i in items[:3]])
            return
        refused, got, n = answers
        for i, (w, p, t, via) in enumerate(items[:n]):
            if i in refused:
                o = {"tag": "Reject", "value": {"#tup": []}}
            elif got.get(i) == "panic":
                # only the macro that does not know its type may do this at run time
                o = {"tag": "Reject" if via == "fixnum!" else "Panic", "value": {"#tup": []}}
            elif i in got:
                o = {"tag": "Ret", "value": lib.big(int(got[i]))}
            elif ctx.violations:
                continue
            else:
                raise ToolError("no answer for literal %d" % i)
            call = {"tag": "Literal", "value": {"w": lib.big(w), "p": lib.big(p), "s": [lib.big(ord(c)) for c in t]}}
            e = {"w": w, "p": p, "via": via, "profile": profile, "call": call, "outcome": o}
            if i in refused:
                e["note"] = refused[i]
            events.append(e)
    bad = [dict(e, outcome=lib.perturb(e["outcome"], i)) for i, e in enumerate(events[:500])]
    # both profiles mostly agree, and each answer is judged once
    key = lambda e: json.dumps([e["call"], e["outcome"]], sort_keys=True)
    distinct = list({key(e): e for e in events + bad}.items())
    res = dict(zip([k for k, _ in distinct], lib.quint_judge([("accept", [e["call"], e["outcome"]]) for _, e in distinct], work=ctx.dir("literals"))))
    for e in events:
        if not res[key(e)]:
            ctx.violation("%s profile: %s" % (e["profile"], lib.readable(e)), e)
    ctx.coverage = dict(
        evaluations=len(events), distinct_nontrivial=len(items),
        rule="distinct literals (type, text), a third each through fixnum_const!, fixnum! and a macro of one's own that forwards to fixnum_const!, "
             "compiled and run in the dev and in the release profile; refused ones are recognized by the compiler's diagnostics; every outcome is judged by Quint's evaluator",
        samples=[lib.readable(e) for e in pick(events, 12)], refused_by_the_compiler={x: len(both[x][0]) for x in PROFILES},
        panics={x: sum(v == "panic" for v in both[x][1].values()) for x in PROFILES},
        tampered_outcomes_rejected="%d of %d" % (sum(not res[key(e)] for e in bad), len(bad)))
    ctx.assumptions = ["the specification says what the documentation promises"]


VIAS = ("fixnum_const!", "a macro of one's own", "fixnum!")
PROFILES = ("dev", "release")


def compiled(ctx, items, profile):
    """What the compiler refuses of a list of literals, and what the others say when run: two
    dictionaries by index, and how many literals were tried; nothing if the compiler does not come to an end."""
    import shutil, subprocess
    name = "literals_" + profile
    d = ctx.dir(name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.release]\nopt-level = 0\ncodegen-units = 16\n[dependencies]\n'
        'fixnum = { path = "%s", features = ["i16", "i32", "i64", "i128"] }\n' % (name, lib.REPO))
    shutil.copy(os.path.join(lib.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    main = os.path.join(d, "src", "main.rs")

    def source(skip):
        """One item per line, so that a diagnostic names it by its line."""
        l = ["use fixnum::{fixnum, fixnum_const, typenum::*, FixedPoint as F}; macro_rules! own { ($v:literal, $p:literal) => { fixnum_const!($v, $p) } }",
             "struct W<T>(T); macro_rules! w { ($($t:ty)*) => { $(impl<P> From<F<$t, P>> for W<F<$t, P>> { fn from(x: F<$t, P>) -> Self { W(x) } })* } } w!(i16 i32 i64 i128);",
             "fn say(i: usize, f: impl FnOnce() -> i128 + std::panic::UnwindSafe) { match std::panic::catch_unwind(f) { Ok(x) => println!(\"{i} {x}\"), Err(_) => println!(\"{i} panic\") } }"]
        for i, (w, p, t, via) in enumerate(items):
            if i in skip:
                l.append("")
            elif via == "fixnum!":
                l.append("fn f%d() -> i128 { let x: W<F<i%d, U%d>> = fixnum!(%s, %d); x.0.into_bits() as i128 }" % (i, w, p, t, p))
            else:
                l.append("const C%d: F<i%d, U%d> = %s!(%s, %d); fn f%d() -> i128 { C%d.into_bits() as i128 }" % (i, w, p, "fixnum_const" if via == VIAS[0] else "own", t, p, i, i))
        l.append("fn main() { std::panic::set_hook(Box::new(|_| {}));")
        l += ["say(%d, f%d);" % (i, i) for i in range(len(items)) if i not in skip]
        l.append("}")
        return "\n".join(l)

    refused, target = {}, os.path.join(lib.TARGET, name)
    attempt, slow = 0, False
    while attempt < 4:
        attempt += 1
        open(main, "w").write(source(refused))
        try:
            r = lib.run(["cargo", "build", "--offline", "--message-format=json", "--profile", profile, "--target-dir", target],
                        150 if slow else 300 if ctx.quick else 1500, cwd=d, ok=None)
        except subprocess.TimeoutExpired:
            # each of them may take the compiler long that should not: what becomes of a few?
            subprocess.run(["pkill", "-f", "--", "--crate-name " + name])
            if slow:
                ctx.violation("the compiler does not come to an end with fixnum!(%s, %d) and %d others" % (items[0][2], items[0][1], len(items) - 1),
                              {"literals": [i[:3] for i in items]})
                return None
            slow, attempt, items, refused = True, 0, items[:40], {}
            continue
        before, other = len(refused), []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                continue
            lines = set()

            def spans(x):
                if isinstance(x, dict):
                    if str(x.get("file_name", "")).endswith("src/main.rs"):
                        lines.add(x["line_start"])
                    for v in x.values():
                        spans(v)
                elif isinstance(x, list):
                    for v in x:
                        spans(v)
            if name not in m.get("target", {}).get("name", ""):
                raise ToolError("the library does not build: " + m["message"]["rendered"][:2000])
            spans(m["message"])
            hit = [n - 4 for n in lines if 0 <= n - 4 < len(items)]
            if not hit and "aborting due to" not in m["message"]["message"]:
                other.append(m["message"]["rendered"])
            for i in hit:
                refused[i] = m["message"]["message"]
        if r.returncode == 0:
            break
        if len(refused) == before:
            raise ToolError("the literals do not build: " + "\n".join(other)[:3000] + r.stderr[-2000:])
    else:
        raise ToolError("the literals do not build after four rounds")
    got = {}
    for line in said_by(ctx, os.path.join(target, "debug" if profile == "dev" else "release", name)):
        i, v = line.split()
        got[int(i)] = v
    return refused, got, len(items)


# -------------------------------------------------------------- configurations
def decide_C25(ctx):
    scale, seconds = (0.25, 40) if ctx.quick else (20, 400)
    with ThreadPoolExecutor(2) as ex:
        names = list(lib.CONFIGS)
        binaries = dict(zip(names, ex.map(lib.build, names)))
    total = distinct = 0
    digests, judged, samples, runs = {}, 0, [], {}
    for name in names:
        for w in lib.CONFIGS[name][2]:
            tag = "%s-%d" % (name, w)
            extra = ["--layout", str(w), "--digest"]
            s = ctx.conform(binaries[name], "ALL", scale, seconds, tag, extra)
            if s is None:
                continue
            c = ctx.confirm(tag)
            total += s["events"]
            if name == "main":
                distinct += s["distinct"]
            judged += len(c["sample"]) + len(c["rejects"])
            samples += [tag + ": " + lib.readable(e) for e in pick(c["sample"], 2)]
            runs[tag] = {"events": s["events"], "cut_by_time": s["cut"]}
            digests[name, w] = {i: (n, h) for i, n, h in s["digests"]}
    compared = 0
    for (name, w), d in digests.items():
        ref = digests.get(("main", w))
        if name == "main" or ref is None:
            continue
        for i in d:
            if i in ref:
                compared += d[i][0]
                if d[i] != ref[i] and len(ctx.violations) < 20:
                    locate(ctx, binaries["main"], binaries[name], name, w, i, scale)
    ctx.coverage = dict(
        evaluations=total, distinct_nontrivial=distinct,
        rule="the calls of C01-C18, C20, C21, C26, C27 (those of C20, C21 in three builds), made by %d builds of the library (%s); every outcome is judged by the specification, and job by job "
             "the sequences of outcomes are compared with those of the first build by digest; distinct ones are counted in the first build. %s"
             % (len(names), "; ".join("%s: %s" % (n, " ".join(lib.CONFIGS[n][0])) for n in names), NOTE),
        samples=samples[:14], runs=runs, outcomes_compared=compared, judged_by_quint=judged)
    ctx.assumptions = ASSUME[:2]


def locate(ctx, a, b, name, w, i, scale):
    """Two builds disagree about a job: find the first call that differs."""
    out = []
    for k, x in (("a", a), ("b", b)):
        p = os.path.join(ctx.work, k + ".ndjson")
        lib.run([x, "job", "ALL", str(i), "--out", p, "--seed", str(ctx.seed), "--scale", str(scale), "--layout", str(w)], 300)
        out.append([l for l in open(p) if json.loads(l)["via"] not in ("JsonMap", "Xml", "XmlAttr")])
    for l, m in zip(*out):
        if l != m:
            l, m = json.loads(l), json.loads(m)
            ctx.violation("configuration %s: %s, otherwise: %s" % (name, lib.readable(m), lib.readable(l)), m)
            return
    raise ToolError("job %d of layout %d differs between builds, but not when repeated" % (i, w))


# -------------------------------------------------------------- state machines
def simulate(ctx, name, procs, traces, steps):
    """Behaviours of a machine, as files of ITF, the invariant `ok` checked in every state."""
    import hashlib
    d = ctx.dir("traces-" + name)

    def one(i):
        seed = "0x" + hashlib.sha256(("%s %d %d" % (name, ctx.seed, i)).encode()).hexdigest()[:15]
        lib.run(["quint", "run", "spec/%s.qnt" % name, "--main", name, "--mbt", "--invariant", "ok", "--verbosity", "0",
                 "--max-samples", str(traces), "--n-traces", str(traces), "--max-steps", str(steps), "--seed", seed,
                 "--out-itf", os.path.join(d, "%d_{seq}.itf.json" % i)], 850 if ctx.quick else 7200)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(procs)))
    files = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".itf.json"))
    if len(files) != procs * traces:
        raise ToolError("%d traces of %s instead of %d" % (len(files), name, procs * traces))
    return files


DEADLY = {4: "SIGILL", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV"}


def death(ctx, cmd, timeout):
    """Runs the harness.  None if that went well, what happened if the library
    takes the process down or does not return."""
    import subprocess
    try:
        r = lib.run(cmd, timeout, ok=None)
    except subprocess.TimeoutExpired:
        return "does not return"
    if r.returncode == 0:
        return None
    if -r.returncode in DEADLY:
        return "dies by " + DEADLY[-r.returncode]
    raise ToolError("%s: exit %d\n%s" % (" ".join(cmd), r.returncode, r.stderr[-4000:]))


def replay_traces(ctx, binary, files, rounds, tag):
    d = ctx.dir("replay-" + tag)
    listing = os.path.join(d, "files")

    def go(some, timeout):
        open(listing, "w").write("\n".join(some) + "\n")
        return death(ctx, [binary, "trace", "replay", "--out", d, "--rounds", str(rounds), "--files", listing], timeout)
    if go(files, 120 if ctx.quick else 1800):
        for f in files:
            what = go([f], 60)
            if what:
                script = [m for s in json.load(open(f))["states"] for m in s["script"]]
                ctx.violation("%s while a behaviour of %d calls is replayed" % (what, len(script)),
                              {"how": what, "calls": [dict(via=m["via"], w=m["w"], p=m["p"], call=m["call"], outcome=m["outcome"]) for m in script]})
                return None
        raise ToolError("the replay of all traces fails, not that of any single one")
    s = json.load(open(os.path.join(d, "summary.json")))
    bad = [json.loads(l) for l in open(os.path.join(d, "mismatches.ndjson"))]
    res = lib.quint_judge([("accept", [e["call"], e["outcome"]]) for e in bad] +
                          [("accept", [e["call"], e["expected"]]) for e in bad], "spec/history.qnt", "history", d)
    for e, ok, exp in zip(bad, res, res[len(bad):]):
        if ok or not exp:
            raise ToolError("the machine foretells something else than what the relation accepts: " + lib.readable(e))
        ctx.violation("%s replay: %s, expected %s" % (e["how"], lib.readable(e), json.dumps(lib.plain(e["expected"]))), e)
    return s


def tamper_history(h, i):
    """A history that no longer is one."""
    h = json.loads(json.dumps(h))
    k = i % len(h["steps"])
    if i % 2:
        h["steps"][k]["outcome"] = lib.perturb(h["steps"][k]["outcome"], i)
    else:
        r = h["states"][k + 1]
        r[i // 2 % len(r)] = lib.big(int(r[i // 2 % len(r)]["#bigint"]) + 1)
    return h


def record_histories(ctx, binary):
    d = ctx.dir("record")
    n, steps, hot = (60, 4000, 20000) if ctx.quick else (400, 10000, 200000)
    cmd = [binary, "trace", "record", "--out", d, "--seed", str(ctx.seed), "--histories", str(n), "--steps", str(steps), "--hot", str(hot)]
    what = death(ctx, cmd, 120 if ctx.quick else 1800)
    if what:
        ctx.violation("%s while histories are recorded" % what, {"how": what, "command": cmd[1:]})
        return None, 0, 0
    s = json.load(open(os.path.join(d, "summary.json")))
    load = lambda f: [json.loads(l) for l in open(os.path.join(d, f))]
    rejects, pairs, hist = load("rejects.ndjson"), load("inconsistent.ndjson"), load("histories.ndjson")
    bad = [tamper_history(h, i) for i, h in enumerate(hist)]
    step = lambda e, o: {"dst": lib.big(-1), "call": e["call"], "outcome": o}
    cases = [("validHistory", [h["states"], h["steps"]]) for h in hist + bad]
    cases += [("accept", [e["call"], e["outcome"]]) for e in rejects]
    cases += [("consistent", [step(e, e["outcome"]), step(e, e["otherwise"])]) for e in pairs]
    res = lib.quint_judge(cases, "spec/history.qnt", "history", d)
    k = len(hist)
    if not rejects and not all(res[:k]):
        raise ToolError("Quint rejects a history that its translation accepts")
    if any(res[k:2 * k]) and not rejects:
        raise ToolError("Quint accepts a history that has been tampered with")
    res = res[2 * k:]
    for e, ok in zip(rejects, res):
        if ok:
            raise ToolError("Quint accepts what its translation rejects: " + lib.readable(e))
        ctx.violation("in a history: " + lib.readable(e), e)
    for e, ok in zip(pairs, res[len(rejects):]):
        if ok:
            raise ToolError("Quint finds consistent what differs: " + lib.readable(e))
        ctx.violation("%s: %s, otherwise %s" % (e["how"], lib.readable(e), json.dumps(lib.plain(e["otherwise"]))), e)
    return s, k, len(bad)


def decide_C28(ctx):
    binary = lib.build("main")
    files = simulate(ctx, "machine", *((6, 120, 60) if ctx.quick else (32, 600, 100)))
    s = replay_traces(ctx, binary, files, 3 if ctx.quick else 10, "machine")
    r, judged, tampered = record_histories(ctx, binary)
    a = directed(ctx, binary, "ALL", 0.3)
    s, r = s or {}, r or {}
    first = json.load(open(files[0]))
    ctx.coverage = dict(
        evaluations=s.get("ordered", 0) + s.get("free", 0) + r.get("steps", 0) * 4 + r.get("hot", 0) + a.get("events", 0),
        distinct_nontrivial=s.get("distinct", 0) + r.get("distinct", 0) + a.get("distinct", 0),
        rule="calls in behaviours of spec/machine.qnt (simulated by Quint with its invariants checked in every state), replayed in their order on one thread for each of the machine, "
             "registers compared after every step, then by all threads at once; and calls in histories of programs that choose their calls by what they have computed, "
             "repeat and vary earlier ones, each history once alone (every step judged by validStep), once on each of eight threads at a time, and once interleaved with others on one thread; single calls very often; and the calls of the other properties' checks, one after another. "
             "Distinct: different calls, counted exactly in the traces, by 64-bit hash in the histories.",
        samples=[lib.readable(m) for st in first["states"] for m in st["script"]][:12],
        traces=s.get("traces"), trace_steps=s.get("steps"), actions=s.get("actions"), trace_outcomes=s.get("tally"),
        histories=r.get("histories"), history_steps=r.get("steps"), calls_repeated=r.get("repeated"), history_outcomes=r.get("tally"),
        histories_judged_by_quint=judged, tampered_histories_rejected=tampered)
    ctx.assumptions = ASSUME[:2] + ["interleavings are those the scheduler of this system brings about; the library has no points at which another could be forced"]


# ----------------------------------------------------------------- bookkeeping
def directed(ctx, binary, plan, scale):
    """The calls of other properties' checks, judged one by one."""
    s = ctx.conform(binary, plan, scale if ctx.quick else scale * 20, 25 if ctx.quick else 400, "directed-" + plan)
    if s is None:
        return {}
    ctx.confirm("directed-" + plan)
    return s


def apalache(ctx, spec, main, init="init", invariant="inv", steps=1, timeout=600, backend=None):
    """Model checking with Apalache (or TLC); an error there is one of the specification."""
    d = ctx.dir("verify-%s-%s" % (main, init))
    cmd = ["quint", "verify", os.path.join(lib.SPEC, spec), "--main", main, "--init", init, "--invariant", invariant]
    if backend:
        cmd += ["--backend", backend]
    else:
        cmd += ["--max-steps", str(steps)]
    with lib.Lock("apalache"):
        r = lib.run(cmd, timeout, cwd=d, ok=None)
    if r.returncode != 0:
        raise ToolError("%s: %s\n%s" % (" ".join(cmd), r.stdout[-3000:], r.stderr[-3000:]))


def decide_C30(ctx):
    binary = lib.build("main")
    files = simulate(ctx, "ledger", *((6, 150, 40) if ctx.quick else (32, 800, 60)))
    s = replay_traces(ctx, binary, files, 2, "ledger") or {}
    a = [directed(ctx, binary, p, 1.5) for p in ("C01", "C03", "C05", "C08", "C09", "C15", "C26")]
    proofs = ["bank64", "bank128"]
    for m in proofs:
        apalache(ctx, "bank.qnt", m, init="anywhere")
    first = json.load(open(files[0]))
    ctx.coverage = dict(
        evaluations=s.get("ordered", 0) + s.get("free", 0) + sum(x.get("events", 0) for x in a),
        distinct_nontrivial=s.get("distinct", 0) + sum(x.get("distinct", 0) for x in a),
        rule="calls in behaviours of spec/ledger.qnt, simulated by Quint with its invariants (the scripts of calls do what spec/bank.qnt does; the sum of the accounts is what was paid in and out; "
             "no account is below zero; nothing overflows but a deposit) checked in every state, replayed on the library with all accounts compared after every operation; and calls of the same operations around halves and the ends of the ranges, from other properties' checks. Distinct: different calls.",
        samples=[lib.readable(m) for st in first["states"] for m in st["script"]][:12],
        traces=s.get("traces"), operations=s.get("steps"), actions=s.get("actions"), outcomes=s.get("tally"),
        proved="the invariant of spec/bank.qnt is inductive for all amounts of 64 bits at precision 9 and 128 bits at precision 18 (Apalache, %s)" % ", ".join(proofs))
    ctx.assumptions = ASSUME[:1]


# ----------------------------------------------------------------------- types
def compile_lines(ctx, name, header, lines, footer, features):
    """Compiles a program, line by line as it were: {line: what the compiler says
    about it} and the binary made of the rest."""
    import shutil
    d = ctx.dir(name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        'fixnum = { path = "%s", default-features = false, features = %s }\n' % (name, lib.REPO, json.dumps(features)))
    shutil.copy(os.path.join(lib.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    target, refused, first = os.path.join(lib.TARGET, name), {}, header.count("\n") + 1
    for _ in range(6):
        body = ["" if i in refused else l for i, l in enumerate(lines)]
        open(os.path.join(d, "src", "main.rs"), "w").write("\n".join([header] + body + [footer(refused)]))
        r = lib.run(["cargo", "build", "--offline", "--message-format=json", "--target-dir", target], 800, cwd=d, ok=None)
        before, other = len(refused), []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                continue
            if name not in m.get("target", {}).get("name", ""):
                raise ToolError("the library does not build: " + m["message"]["rendered"][:2000])

            def spans(x, primary):
                out = set()
                for s in x.get("spans", []):
                    while s:
                        if s["file_name"].endswith("src/main.rs") and (s["is_primary"] or not primary):
                            out.add(s["line_start"] - 1 - first)
                        s = (s.get("expansion") or {}).get("span")
                return out
            msg = m["message"]
            hit = spans(msg, True) or set().union(*[spans(c, False) for c in msg.get("children", [])], spans(msg, False))
            hit = [n for n in hit if 0 <= n < len(lines)]
            if not hit and "aborting due to" not in msg["message"]:
                other.append(msg["rendered"])
            for n in hit:
                refused.setdefault(n, msg["message"])
        if r.returncode == 0:
            return refused, os.path.join(target, "debug", name)
        if len(refused) == before:
            break
    raise ToolError("%s does not build: %s" % (name, "\n".join(other)[:3000] + r.stderr[-2000:]))


def compile_programs(ctx, name, programs, features):
    """{program: path} of those that compile, {program: what the compiler says} of the others."""
    import shutil
    d = ctx.dir(name)
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        'fixnum = { path = "%s", default-features = false, features = %s }\n' % (name, lib.REPO, json.dumps(features)))
    shutil.copy(os.path.join(lib.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    for k, v in programs.items():
        open(os.path.join(d, "src", "bin", k + ".rs"), "w").write(v)
    r = lib.run(["cargo", "build", "--offline", "--bins", "--keep-going", "--message-format=json",
                 "--target-dir", os.path.join(lib.TARGET, name)], 800, cwd=d, ok=None)
    built, said = {}, {}
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        target = m.get("target", {}).get("name", "")
        if m.get("reason") == "compiler-artifact" and target in programs and m.get("executable"):
            built[target] = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            if target not in programs:
                raise ToolError("the library does not build: " + m["message"]["rendered"][:2000])
            said.setdefault(target, m["message"]["message"])
    for k in programs:
        if (k in built) == (k in said):
            raise ToolError("neither compiled nor refused: %s: %s" % (k, r.stderr[-2000:]))
    return built, said


def decide_C31(ctx):
    import random
    rng = random.Random(ctx.seed * 7919 + 31)
    N, S = (lambda w, p: ("Number", w, p)), (lambda w: ("Signed", w))
    fixed = [N(16, 0), N(16, 2), N(32, 4), N(64, 9), N(64, 18), N(128, 9), N(128, 18), N(128, 38)]
    some = [N(w, rng.randrange(WIDTHS[w] + 1)) for w in WIDTHS for _ in range(1 if ctx.quick else 4)]
    numbers = sorted(set(fixed + some))
    others = [S(w) for w in (8, 16, 32, 64, 128)] + [("Unsigned", w) for w in (8, 16, 32, 64, 128)] + [("Double",), ("Boolean",)]
    rust = lambda t: {"Number": "F<i%s, U%s>", "Signed": "i%s", "Unsigned": "u%s", "Double": "f64", "Boolean": "bool"}[t[0]] % t[1:]
    unit = {"#tup": []}
    spec_tests(ctx, ["types"])
    quint = lambda t: {"tag": t[0], "value": {"w": lib.big(t[1]), "p": lib.big(t[2])} if t[0] == "Number" else lib.big(t[1]) if len(t) > 1 else unit}
    TRAIT = {"cadd": "CheckedAdd", "csub": "CheckedSub", "saturating_add": "CheckedAdd", "saturating_sub": "CheckedSub", "cmul": "CheckedMul",
             "saturating_mul": "CheckedMul", "rmul": "RoundingMul", "saturating_rmul": "RoundingMul", "rdiv": "RoundingDiv"}
    MODE = ("rmul", "saturating_rmul", "rdiv", "half_sum")

    def expression(op, l, r):
        if op in TRAIT:
            return "%s::%s(l, r%s)" % (TRAIT[op], op, ", Floor" if op in MODE else "")
        if op == "half_sum":
            return "<%s>::half_sum(l, r, Floor)" % rust(l)
        if op == "round_towards_zero_by":
            return "<%s>::round_towards_zero_by(l, r)" % rust(l)
        if op == "into":
            return "{ let x: %s = l.into(); drop(r); x }" % rust(r)
        if op == "try_into":
            return "<%s as TryFrom<%s>>::try_from(l)" % (rust(r), rust(l))
        return "l %s r" % op
    ops = list(TRAIT) + ["half_sum", "round_towards_zero_by", "==", "<", "into", "try_into", "+", "-", "*", "/"]
    cases = []
    for op in ops:
        for l in numbers + others:
            for r in numbers + others:
                if l[0] != "Number" and r[0] != "Number" and (op not in TRAIT or l[0] != "Signed" or r[0] != "Signed"):
                    continue
                cases.append((op, l, r, None))
                # the type of the result, and another one
                if l[0] == "Number" and op in TRAIT and (l == r or l[1:2] == r[1:2]):
                    cases += [(op, l, r, l), (op, l, r, r)] + [(op, l, r, rng.choice(numbers))]
    lines = []
    for i, (op, l, r, claim) in enumerate(cases):
        e = expression(op, l, r)
        if claim:
            t = rust(claim)
            t = t if op.startswith("saturating") else "Result<%s, ArithmeticError>" % t
            lines.append("fn f%d(l: %s, r: %s) -> %s { %s }" % (i, rust(l), rust(r), t, e))
        else:
            lines.append("fn f%d(l: %s, r: %s) { let _ = %s; }" % (i, rust(l), rust(r), e))
    header = "#![allow(dead_code, unused)]\nuse fixnum::{ops::{*, RoundMode::*}, typenum::*, ArithmeticError, FixedPoint as F};"
    features = ["std", "i16", "i32", "i64", "i128"]
    refused, _ = compile_lines(ctx, "types", header, lines, lambda refused: "fn main() {}", features)
    # every precision of every layout, and beyond: a program each
    precisions = [(w, p) for w in WIDTHS for p in range(0, 46)]
    n = len(lines)
    lines += ["const ONE: F<i%d, U%d> = One::ONE;" % x for x in precisions]
    programs = {"one_%d_%d" % x: 'use fixnum::{ops::One, typenum::*, FixedPoint as F};\n%s\nfn main() { println!("{}", ONE.into_bits()) }\n' % l
                for x, l in zip(precisions, lines[n:])}
    built, said = compile_programs(ctx, "precisions", programs, features)
    ones = {}
    for k, x in enumerate(precisions):
        name = "one_%d_%d" % x
        if name in built:
            ones[n + k] = int(lib.run([built[name]], 60).stdout)
        else:
            refused[n + k] = said[name]
    none = {"tag": "Illtyped", "value": unit}
    claimed = lambda c: {"tag": "Of", "value": quint(c)} if c else none
    typing = [[op, quint(l), quint(r), claimed(c), i not in refused] for i, (op, l, r, c) in enumerate(cases)]
    prec = [[lib.big(w), lib.big(p), n + k not in refused, lib.big(ones.get(n + k, 0))] for k, (w, p) in enumerate(precisions)]
    calls = [("acceptTyping", x) for x in typing] + [("acceptPrecision", x) for x in prec]
    bad = [("acceptTyping", x[:4] + [not x[4]]) for x in typing] + [("acceptPrecision", x[:2] + [x[2], lib.big(int(x[3]["#bigint"]) + 1)] if x[2] else x[:2] + [True, x[3]]) for x in prec]
    res = lib.quint_judge(calls + bad, "spec/typing.qnt", "typing", ctx.dir("judge"))
    for i, ok in enumerate(res[:len(calls)]):
        if not ok:
            what = "%s: %s" % (lines[i], "refused: " + refused[i] if i in refused else
                               "compiles" + (", is %d" % ones[i] if i >= n else ""))
            ctx.violation(what, {"line": lines[i], "verdict": refused.get(i), "call": calls[i][0], "arguments": calls[i][1]})
    if any(res[len(calls):]) and not ctx.violations:
        raise ToolError("Quint accepts a verdict of the compiler that has been inverted: %r" % (bad[res[len(calls):].index(True)],))
    ctx.coverage = dict(
        evaluations=len(calls), distinct_nontrivial=len(calls),
        rule="expressions (operation, types of both operands, for some the type the result is claimed to have), one function each, and programs that print the constant ONE of every layout at precisions 0 to 45; "
             "what the compiler refuses is read from its diagnostics; every verdict is judged by Quint's own evaluator. All different.",
        samples=[lines[i] + ("  // refused" if i in refused else "") for i in pick(range(len(lines)), 14)],
        refused=len(refused), compiled=len(lines) - len(refused), tampered_verdicts_rejected=len(bad))
    ctx.assumptions = ASSUME[:1]


# ---------------------------------------------------------------------- values
BOUNDS = {"Eternal": "'static", "UnwindSafe": "std::panic::UnwindSafe", "RefUnwindSafe": "std::panic::RefUnwindSafe", "Debug": "std::fmt::Debug", "Display": "std::fmt::Display",
          "Hash": "std::hash::Hash", "FromStr": "std::str::FromStr", "Error": "std::error::Error", "Sum": "std::iter::Sum", "Product": "std::iter::Product", "DerefMut": "std::ops::DerefMut"}
PLAIN = ["Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe", "Eternal", "Clone", "Debug", "PartialEq", "Eq", "Copy", "Default", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Error"]
OPERATORS = ["Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign", "ShlAssign"]
ALONE = ["Neg", "Not", "Sum", "Product", "DerefMut", "AsMut", "Drop"]


def said_by(ctx, program):
    """What a program of calls that never fail writes; that it fails is a violation."""
    r = lib.run([program], 120, ok=None)
    if r.returncode:
        ctx.violation("a program ends with %d after it wrote %r: %s" % (r.returncode, r.stdout[-80:], r.stderr[:1000]), {"program": program, "stderr": r.stderr[-4000:]})
    return r.stdout.splitlines()


def decide_C19(ctx):
    """Numbers, errors and rounding modes as values."""
    import random
    rng = random.Random(ctx.seed * 7919 + 19)
    unit = {"#tup": []}
    formats = [(w, p) for w in WIDTHS for p in range(WIDTHS[w] + 1)]
    number = lambda w, p: "F<i%d, U%d>" % (w, p)
    things = [({"tag": "Number", "value": {"w": lib.big(w), "p": lib.big(p)}}, number(w, p), "i%d" % w) for w, p in formats]
    things += [({"tag": t, "value": unit}, r, "i64") for t, r in (("RoundingMode", "RoundMode"), ("ArithmeticFailure", "ArithmeticError"), ("ConversionFailure", "ConvertError"))]
    cases, lines = [], []
    for t, r, i in things:
        few = t["tag"] == "Number" and ctx.quick and rng.randrange(6)
        for trait in PLAIN + ALONE + OPERATORS:
            if trait in OPERATORS and few:
                continue
            bound = BOUNDS.get(trait, "std::ops::" + trait if trait in OPERATORS + ALONE else trait)
            bounds = [bound + "<%s>" % x for x in (r, i)] if trait in OPERATORS else ["AsMut<%s>" % i] if trait == "AsMut" else [bound]
            for b in bounds:
                cases.append((t, trait))
                lines.append("const _: () = assert!(std::mem::needs_drop::<%s>());" % r if trait == "Drop" else
                             "fn f%d() { fn need<T: %s>() {} need::<%s>() }" % (len(lines), b, r))
    # nothing reaches into a number
    inside = []
    for w, p in formats:
        for e in ("x.inner = 1;", "*x.as_bits() = 1;", "let _: &mut i%d = x.as_bits();" % w):
            inside.append(len(lines))
            lines.append("fn g%d(mut x: %s) { %s }" % (len(lines), number(w, p), e))
    header = ("#![allow(dead_code, unused)]\nuse fixnum::{ops::{*, RoundMode::*}, typenum::{%s}, ArithmeticError, ConvertError, FixedPoint as F};\n" % ", ".join("U%d" % p for p in range(39))
              +
              "fn memory<T: Copy, const N: usize>(x: T) -> Vec<u8> { let mut b = [0u8; N]; unsafe { std::ptr::copy_nonoverlapping(&x as *const T as *const u8, b.as_mut_ptr(), N.min(std::mem::size_of::<T>())) } b.to_vec() }\n"
              "fn extent<T>() -> [usize; 2] { [std::mem::size_of::<T>(), std::mem::align_of::<T>()] }\n"
              "fn said<E: std::error::Error + 'static>(name: &str, e: E, t: &str) { let shown = e.to_string(); let b: Box<dyn std::error::Error> = Box::new(e); println!(\"said {name}|{t}|{shown}|{b}\") }")
    # what is evaluated: constants by the compiler, the rest by a run
    constants, body = [], []
    for w, p in formats:
        n = number(w, p)
        for name in ("ZERO", "ONE", "MIN", "MAX", "EPSILON", "PRECISION", "from_bits"):
            for _ in range(4 if name == "from_bits" else 1):
                a = rng.choice([2 ** (w - 1) - 1, -2 ** (w - 1), 0, -1, rng.randrange(-2 ** (w - 1), 2 ** (w - 1)), rng.randrange(-2 ** (w - 1), 2 ** (w - 1)) >> rng.randrange(w)])
                v = ("*%s::from_bits(%d).as_bits()" % (n.replace("F<", "F::<"), a) if name == "from_bits" else "<%s>::PRECISION" % n if name == "PRECISION" else
                     "*<%s>::EPSILON.as_bits()" % n if name == "EPSILON" else "*<%s as %s>::%s.as_bits()" % (n, {"ZERO": "Zero", "ONE": "One"}.get(name, "Bounded"), name))
                k = len(constants)
                constants.append((w, p, name, a))
                lines.append("const K%d: i128 = %s as i128;" % (k, v))
                body.append('println!("constant %d {}", K%d);' % (k, k))
    memory, extents = [], []
    for w, p in formats:
        n = number(w, p)
        for _ in range(3):
            a = rng.choice([2 ** (w - 1) - 1, -2 ** (w - 1), rng.randrange(-2 ** (w - 1), 2 ** (w - 1)), rng.randrange(-2 ** (w - 1), 2 ** (w - 1))])
            memory.append((w, p, a))
            body.append('{ let x = <%s>::from_bits(%d); let s: &[%s] = unsafe { std::slice::from_raw_parts([1i%d, %d].as_ptr() as *const %s, 2) }; println!("memory %d {:?} {}", memory::<_, %d>(x), s[1].into_bits()); }'
                        % (n, a, n, w, a, n, len(memory) - 1, w // 8))
        for made, f in (("one", "%s"), ("option", "Option<%s>"), ("array", "[%s; 3]"), ("pair", "(u8, %s)"), ("result", "Result<%s, ArithmeticError>"), ("box", "Option<Box<%s>>")):
            extents.append((w, p, made))
            body.append('println!("extent %d {:?} {:?}", extent::<%s>(), extent::<%s>());' % (len(extents) - 1, f % n, f % ("i%d" % w)))
    for w, p in formats:
        n = number(w, p)
        body.append('{ type N = %s; let (m, o) = (<N as Bounded>::MAX, <N as One>::ONE);' % n
                    + 'if let Err(e) = m.cadd(m) { said("Overflow", e.clone(), e.as_str()); } if let Err(e) = CheckedMul::cmul(m, i%d::MAX) { said("Overflow", e.clone(), e.as_str()); }' % w
                    + 'if let Err(e) = o.rdiv(<N as Zero>::ZERO, Floor) { said("DivisionByZero", e.clone(), e.as_str()); } if let Err(e) = o.cneg().unwrap().rsqrt(Ceil) { said("DomainViolation", e.clone(), e.as_str()); }'
                    + "".join('if let Err(e) = %s { said("Conversion", e.clone(), e.as_str()); }' % x for x in
                              ('"1,5".parse::<N>()', 'N::from_str_exact("")', 'N::from_decimal(1, 11)', 'N::try_from(1e300)', 'N::try_from(f64::NAN)', 'N::try_from(u128::MAX)')) + " }")
    first, middle = len(lines) - len(constants), len(lines)
    lines += ["fn r%d() { %s }" % (k, l) for k, l in enumerate(body)]
    footer = lambda refused: "fn main() {\n%s\n}" % "\n".join("r%d();" % k for k in range(len(body)) if middle + k not in refused)
    refused, binary = compile_lines(ctx, "values", header, lines, footer, ["std", "i16", "i32", "i64", "i128"])
    calls, bad, what = [], [], []
    for k, (t, trait) in enumerate(cases):
        calls.append(("acceptTrait", [t, trait, k not in refused]))
        bad.append(("acceptTrait", [t, trait, k in refused]))
        what.append(lines[k] + ": " + ("refused: " + refused[k] if k in refused else "compiles"))
    bytes_of = lambda s: [lib.big(x) for x in json.loads(s)]
    if binary is None or not os.path.exists(binary):
        raise ToolError("no program to run")
    for l in said_by(ctx, binary):
        kind, rest = l.split(" ", 1)
        if kind == "constant":
            k, v = rest.split()
            w, p, name, a = constants[int(k)]
            args = [lib.big(w), lib.big(p), name, lib.big(a), lib.big(int(v))]
            calls.append(("acceptConstant", args))
            bad.append(("acceptConstant", args[:4] + [lib.big(int(v) + 1)]))
        elif kind == "memory":
            k, rest = rest.split(" ", 1)
            w, p, a = memory[int(k)]
            b, v = rest.rsplit(" ", 1)
            args = [lib.big(w), lib.big(a), bytes_of(b), lib.big(int(v))]
            calls.append(("acceptMemory", args))
            bad.append(("acceptMemory", args[:2] + [args[2][1:] + args[2][:1] if len(set(map(str, args[2]))) > 1 else args[2][1:], args[3]]))
        elif kind == "extent":
            k, rest = rest.split(" ", 1)
            w, p, made = extents[int(k)]
            x, y = (json.loads(s + "]") for s in rest.replace("] [", "]|[").replace("]", "").split("|"))
            e = lambda v: {"size": lib.big(v[0]), "align": lib.big(v[1])}
            calls.append(("acceptExtent", [lib.big(w), made, e(x), e(y)]))
            bad.append(("acceptExtent", [lib.big(w), made, e([x[0] * 2, x[1]]), e(y)]))
        elif kind == "said":
            name, t, shown, boxed = rest.split("|")
            s = {"text": t, "shown": shown, "boxed": boxed}
            calls.append(("acceptSaid", [name, s]))
            bad.append(("acceptSaid", [name, dict(s, shown="")]))
        else:
            raise ToolError("the program says " + l)
        what.append("%s: %s" % (kind if kind != "constant" else lines[first + int(k)], rest if kind != "memory" else "%d of i%d is %s" % (a, w, rest)))
    lib.run(["quint", "test", "spec/values.qnt"], 120)
    res = lib.quint_judge(calls + bad, "spec/values.qnt", "values", ctx.dir("judge"))
    for ok, c, w in zip(res, calls, what):
        if not ok:
            ctx.violation(w, {"call": c[0], "arguments": c[1], "what": w})
    for k in range(first, len(lines)):
        if k in refused:
            ctx.violation("%s: %s" % (lines[k], refused[k]), {"line": lines[k]})
    for k in inside:
        if k not in refused:
            ctx.violation("%s: compiles" % lines[k], {"line": lines[k]})
    judged = [a for a, b in zip(res, res[len(calls):]) if a and b]
    # a trait that is not promised either way is right both ways
    free = [c for a, b, c in zip(res, res[len(calls):], calls) if a and b and c[0] != "acceptTrait"]
    if free and not ctx.violations:
        raise ToolError("Quint accepts what has been tampered with: %r" % (free[0],))
    ctx.coverage = dict(
        evaluations=len(calls) + len(inside), distinct_nontrivial=len(set(map(json.dumps, calls))) + len(inside),
        rule="bounds (type, trait), one function each, compiled; what is refused is read from the compiler's diagnostics; attempts to change a number in place; constants evaluated by the compiler; "
             "memory of numbers and of integers; sizes of what is made of numbers, next to the same made of integers; texts of errors; judged by Quint's own evaluator. All precisions of all layouts.",
        samples=[what[i] for i in pick(range(len(what)), 16)], judged_by_quint=len(calls), tampered_rejected=len(calls) - len(judged), refused=len(refused))
    ctx.assumptions = ASSUME[:1]


# --------------------------------------------------------------------- hygiene
LIBRARIES = [("fixnum", 2021, True), ("money", 2018, False), ("core_numbers", 2024, True), ("number", 2015, False)]
PRELUDE = ["Result", "Option", "Into", "From", "TryInto", "TryFrom", "Fn", "FnOnce", "FnMut", "Iterator", "Default", "Clone", "Copy", "Sized", "Send", "Drop", "String", "Vec", "Box",
           "core", "std", "alloc", "convert", "result", "ops", "prelude", "num", "mem", "i16", "i32", "i64", "i128", "u8", "usize", "bool", "str", "T", "U", "I", "O", "P", "R", "A", "B", "C", "Lhs", "Rhs", "Res",
           "Error", "Output", "Target", "Item", "Value", "Number", "Decimal", "Amount", "Price", "fixnum", "typenum", "map", "new", "value", "result", "error", "check", "tmp", "x", "y", "a", "b"]
ITEM = {"record": "pub struct %s { pub z: super::h::Byte }", "tuple": "pub struct %s(pub super::h::Byte);", "alias": "pub type %s<Q> = [Q; 1];", "type": "pub type %s = super::h::Byte;", "trait": "pub trait %s { fn nothing(); }",
        "module": "pub mod %s {}", "function": "pub fn %s() {}", "union": "pub union %s { pub z: super::h::Byte }", "enum": "pub enum %s { Z }"}


def identifiers():
    """Names the macros may speak of: those of the library's sources."""
    out = set(PRELUDE)
    for f in ("lib.rs", "macros.rs", "const_fn.rs", "errors.rs", os.path.join("ops", "mod.rs")):
        t = re.sub(r"//.*", "", open(os.path.join(lib.REPO, "src", f)).read()) if os.path.exists(os.path.join(lib.REPO, "src", f)) else ""
        out |= set(re.findall(r"\b[A-Za-z_][A-Za-z0-9_]*\b", t))
    return sorted(x for x in out if x not in KEYWORDS and not x.startswith("__"))


# (Nothing is expected next to a function Ok.)
KEYWORDS = set("Ok Err Some None as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return self Self static struct super trait true try type typeof unsafe unsized use virtual where while yield abstract union h _".split())


def decide_C33(ctx):
    """The macros next to items of any names."""
    import random, shutil
    rng = random.Random(ctx.seed * 7919 + 33)
    first = sorted(set(PRELUDE) | set(re.findall(r"\b[A-Za-z_][A-Za-z0-9_]*\b", re.sub(r"//.*", "", open(os.path.join(lib.REPO, "src", "macros.rs")).read()))) - KEYWORDS)
    names = [x for x in first if x not in KEYWORDS and not x.startswith("__")]
    more = [x for x in identifiers() if x not in names]
    MODES, NARROW = ["Floor", "Nearest", "Ceil"], {16: 8, 32: 16, 64: 32, 128: 64}
    OPS = {  # operation: (types of the operands, is there a mode, what it is)
        "cadd": ("BB", False, "CAdd", "CheckedAdd"), "csub": ("BB", False, "CSub", "CheckedSub"), "cmul": ("AB", False, "CMul", "CheckedMul"), "rmul": ("BB", True, "RMul", "RoundingMul"), "rdiv": ("BB", True, "RDiv", "RoundingDiv"),
        "rdiv_int": ("BA", True, "RDivInt", "RoundingDiv"), "int_rdiv": ("AB", True, "IntRDiv", "RoundingDiv"), "cadd_int": ("AA", False, "CAdd", "CheckedAdd"),
        "saturating_add": ("BB", False, "SAdd", "CheckedAdd"), "saturating_sub": ("BB", False, "SSub", "CheckedSub")}
    upper = lambda n: n[:1].isupper()
    used = set()

    def raw(w):
        b = rng.choice([w, w, w // 2, w // 2, w // 4])
        return rng.choice([2 ** (b - 1) - 1, -2 ** (b - 1), rng.randrange(-2 ** (b - 1), 2 ** (b - 1)), rng.randrange(-2 ** (b - 1), 2 ** (b - 1)) >> rng.randrange(b)])

    def use_of(kind, name, wrapper):
        """(source, [calls]) of a macro in a module of its own."""
        w = rng.choice(list(WIDTHS))
        p = rng.choice([0, 2, WIDTHS[w] // 2, WIDTHS[w]])
        used.add((w, p))
        item = ITEM[kind] % name if kind in ITEM and not wrapper else ""
        N = "super::h::N%d_%d" % (w, p)
        what = "literal" if not wrapper and rng.randrange(3) == 0 else rng.choice(list(OPS))
        if what == "literal":
            a = raw(w)
            m = str(abs(a)).rjust(p + 1, "0")
            t = ("-" if a < 0 else "") + (m[:-p] + "." + m[-p:] if p else m)
            place = rng.randrange(4) if kind != "parameter" else 4
            # only the compiler refuses for certain
            if place in (0, 3) and rng.randrange(12) == 0:
                t = t + "9" * (2 + WIDTHS[w]) if not p else "9" * (WIDTHS[w] + 2) + t.lstrip("-")
            call = {"tag": "Literal", "value": {"w": lib.big(w), "p": lib.big(p), "s": [lib.big(ord(c)) for c in t]}}
            mac = "super::h::fixnum_const!(%s, %d)" % (t, p)
            if place == 0:
                src = "%s pub const K: %s = %s; pub fn run() -> [super::h::Out; 1] { [super::h::number(K)] }" % (item, N, mac)
            elif place == 1:
                src = "%s pub struct W(%s); impl super::h::From<%s> for W { fn from(x: %s) -> Self { W(x) } } pub fn run() -> [super::h::Out; 1] { let x: W = super::h::fixnum!(%s, %d); [super::h::number(x.0)] }" % (item, N, N, N, t, p)
            elif place == 2:
                src = "pub fn run() -> [super::h::Out; 1] { %s let x: %s = super::h::fixnum!(%s, %d); [super::h::number(x)] }" % (item, N, t, p)
            elif place == 3:
                src = "%s macro_rules! lit { ($v:literal) => { super::h::fixnum_const!($v, %d) } } pub static K: %s = lit!(%s); pub fn run() -> [super::h::Out; 1] { [super::h::number(K)] }" % (item, p, N, t)
            else:
                src = "pub fn run() -> [super::h::Out; 1] { fn f<%s>() -> super::h::Out { let x: %s = %s; super::h::number(x) } [f::<super::h::Byte>()] }" % (name, N, mac)
            return src, [(call, t)]
        kinds, has_mode, tag, trait = OPS[what]
        op = what.replace("_int", "").replace("int_", "")
        op = {"saturating_add": "cadd", "saturating_sub": "csub"}.get(op, op)
        method = what if what.startswith("saturating") else op
        n = rng.choice([w, NARROW[w]])
        L, R, C = "W" + kinds[0], "W" + kinds[1] + ("2" if kinds[0] != kinds[1] or rng.randrange(2) else ""), "W3"
        if kinds[1] != kinds[0]:
            R = "W" + kinds[1]
        if wrapper:
            role = rng.randrange(3)
            L, R, C = [name if role == k else v for k, v in enumerate((L, R, C))]
            if rng.randrange(4) == 0 and kinds[0] == kinds[1]:
                L = R = name if role < 2 else L
        integers = kinds == "AA"
        inner = lambda k: "super::h::Int%d" % (w if integers else n) if k == "A" else N
        types = {L: inner(kinds[0]), R: inner(kinds[1])}
        types[C] = "super::h::Int%d" % w if integers else N
        src = item + " " + " ".join("#[derive(PartialEq, PartialOrd)] pub struct %s(pub %s);" % x for x in types.items())
        if method != op:
            src += " impl super::h::Zero for %s { const ZERO: Self = %s(<%s as super::h::Zero>::ZERO); }" % (R, R, N)
            src += " impl super::h::Bounded for %s { const MIN: Self = %s(<%s as super::h::Bounded>::MIN); const MAX: Self = %s(<%s as super::h::Bounded>::MAX); }" % (C, C, N, C, N)
        src += " impl super::h::From<%s> for %s { fn from(x: %s) -> Self { %s(x) } } super::h::impl_op!(%s [%s] %s = %s);" % (types[C], C, types[C], C, L, op, R, C)
        runs, calls = [], []
        for _ in range(2):
            # integers fit in their type
            v = [raw(n if k == "A" and not integers else w) for k in kinds]
            if rng.randrange(3) == 0:
                v = [x % 200 - 100 for x in v]
            mode = rng.choice(MODES)
            fields = {"w": lib.big(w), "a": lib.big(v[0]), "b": lib.big(v[1])}
            if has_mode:
                fields.update(p=lib.big(p), mode={"tag": mode, "value": {"#tup": []}})
            operand = lambda t, k, x: "%s(%s)" % (t, ("super::h::int%d(%d)" % (w if integers else n, x)) if k == "A" else "super::h::N%d_%d::from_bits(%d)" % (w, p, x))
            e = "<%s as super::h::%s<%s>>::%s(%s, %s%s)" % (L, trait, R, method, operand(L, kinds[0], v[0]), operand(R, kinds[1], v[1]), ", super::h::RoundMode::" + mode if has_mode else "")
            e = "super::h::number(%s.0)" % e if method != op else "super::h::told(%s.map(|x| x.0))" % e
            runs.append(e)
            calls.append(({"tag": tag, "value": fields}, "%s %s" % (what, v)))
        return src + " pub fn run() -> [super::h::Out; 2] { [%s] }" % ", ".join(runs), calls

    def scopes(library, edition, std):
        out, plan = [], []
        for n in names:
            kinds = [k for k in ITEM if upper(n) or k != "tuple"]
            plan += [(k, n, False) for k in kinds]
            if upper(n):
                plan += [("tuple", n, True)] * 2 + [("parameter", n, False)]
        for n in rng.sample(more, min(len(more), 60)) if ctx.quick else more:
            plan += [(rng.choice([k for k in ITEM if upper(n) or k != "tuple"]), n, False)] * (1 if ctx.quick else 4) + [("tuple", n, True)] * upper(n)
        plan = rng.sample(plan, 700) if ctx.quick else plan * 3
        # all of these, always
        plan += [(k, n, False) for n in ("Result", "Option", "Error", "core", "Int") for k in ITEM if upper(n) or k != "tuple"] * 3
        plan += [("tuple", n, True) for n in ("Result", "Int", "Zero", "Operand", "RoundMode", "FixedPoint", "I", "O", "Output")] * 2
        plan += [("none", "", False)] * 40
        for kind, name, wrapper in plan:
            if kind in ("type", "record", "alias", "trait", "union", "enum") and name in ("i16", "i32", "i64", "i128", "u8", "usize", "bool", "str") and edition < 2018:
                pass
            src, calls = use_of(kind, name, wrapper)
            out.append((dict(library=library, edition=lib.big(edition), std=std, kind=kind, name=name, wrapper=wrapper), src, calls))
        return out

    def one(k):
        library, edition, std = LIBRARIES[k]
        l = every[k]
        d = ctx.dir("hygiene-%d" % k)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        open(os.path.join(d, "Cargo.toml"), "w").write(
            '[package]\nname = "scopes"\nversion = "0.1.0"\nedition = "%d"\n[workspace]\n[profile.dev]\ndebug = false\n[dependencies]\n'
            '%s = { package = "fixnum", path = "%s", default-features = false, features = %s }\n' % (edition, library, lib.REPO, json.dumps(["i16", "i32", "i64", "i128"] + ["std"] * std)))
        shutil.copy(os.path.join(lib.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        root = "" if edition == 2015 else "::"
        h = "#![allow(warnings)] %s %s pub mod h { pub use %s%s::{impl_op, fixnum, fixnum_const, FixedPoint, ArithmeticError, ops::{Bounded, CheckedAdd, CheckedSub, CheckedMul, RoundingMul, RoundingDiv, RoundMode, Zero}, typenum::{%s}};" % (
            "" if std else "#![no_std]", "extern crate %s;" % library if edition == 2015 else "", root, library, ", ".join("U%d" % p for p in range(39)))
        h += " pub use %score::convert::From; pub type Byte = u8; pub type Out = (u8, i128); pub trait Wide { fn wide(self) -> i128; }" % ("core::" if False else root if edition > 2015 else "")
        h += "".join(" pub type Int%d = i%d; pub fn int%d(x: i%d) -> i%d { x } impl Wide for i%d { fn wide(self) -> i128 { self as i128 } }" % ((w,) * 6) for w in (8, 16, 32, 64, 128))
        h += "".join(" impl<P> Wide for FixedPoint<i%d, P> { fn wide(self) -> i128 { self.into_bits() as i128 } }" % w for w in WIDTHS)
        h += "".join(" pub type N%d_%d = FixedPoint<i%d, U%d>;" % (w, p, w, p) for w, p in sorted(used))
        h += " pub fn number<T: Wide>(x: T) -> Out { (0, x.wide()) } pub fn told<T: Wide>(x: Result<T, ArithmeticError>) -> Out { match x { Ok(x) => (0, x.wide()), Err(ArithmeticError::Overflow) => (1, 0), Err(ArithmeticError::DivisionByZero) => (2, 0), Err(_) => (3, 0) } } }"
        if edition == 2015:
            h = h.replace("pub use core::convert::From", "pub use ::std::convert::From" if std else "pub use ::core::convert::From").replace("pub use number::", "pub use ::number::")
        refused = {}
        for attempt in range(7):
            open(os.path.join(d, "src", "lib.rs"), "w").write("\n".join([h] + ["" if i in refused else "pub mod m%d { %s }" % (i, src) for i, (_, src, _) in enumerate(l)]) + "\n")
            body = "".join("say(%d, || scopes::m%d::run().to_vec());" % (i, i) for i in range(len(l)) if i not in refused)
            open(os.path.join(d, "src", "main.rs"), "w").write("%s fn say<F: FnOnce() -> Vec<(u8, i128)> + std::panic::UnwindSafe>(i: usize, f: F) { for x in std::panic::catch_unwind(f).unwrap_or(vec![(4, 0); 2]) { println!(\"{} {} {}\", i, x.0, x.1) } } fn main() { std::panic::set_hook(Box::new(|_| {})); %s }" % ("extern crate scopes;" if edition == 2015 else "", body))
            r = lib.run(["cargo", "build", "--offline", "--message-format=json", "--target-dir", os.path.join(lib.TARGET, "hygiene-%d" % k)], 800, cwd=d, ok=None, extra={"CARGO_INCREMENTAL": "0"})
            if r.returncode == 0:
                out = {}
                for x in said_by(ctx, os.path.join(lib.TARGET, "hygiene-%d" % k, "debug", "scopes")):
                    i, t, v = map(int, x.split())
                    out.setdefault(i, []).append((t, v))
                return refused, out
            before, other = len(refused), []
            for line in r.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                    continue
                msg = m["message"]
                if m["target"]["name"] not in ("scopes",):
                    raise ToolError("the library does not build: " + msg["rendered"][:2000])
                hit = set()
                for s in msg["spans"] + [s for c in msg.get("children", []) for s in c["spans"]]:
                    while s:
                        if s["file_name"].endswith("src/lib.rs") and "/repo" not in s["file_name"] and not s["file_name"].startswith(lib.REPO):
                            hit.add(s["line_start"] - 2)
                        s = (s.get("expansion") or {}).get("span")
                hit = [i for i in hit if 0 <= i < len(l)]
                if not hit and "aborting due to" not in msg["message"]:
                    other.append(msg["rendered"])
                for i in hit:
                    refused.setdefault(i, msg["message"])
            if len(refused) == before:
                break
        raise ToolError("the scopes do not build: %s" % ("\n".join(other)[:3000] + r.stderr[-2000:]))

    every = [scopes(*x) for x in LIBRARIES]
    with ThreadPoolExecutor(len(LIBRARIES)) as ex:
        results = list(ex.map(one, range(len(LIBRARIES))))
    lib.run(["quint", "test", "spec/hygiene.qnt", "--main", "hygiene"], 120)
    calls, bad, what = [], [], []
    unit = {"#tup": []}
    for l, (refused, got) in zip(every, results):
        for i, (scope, src, uses) in enumerate(l):
            for n, (call, text) in enumerate(uses):
                if i not in refused and n >= len(got.get(i, [])):
                    continue
                if i in refused:
                    seen, tampered = {"tag": "Refused", "value": unit}, {"tag": "Compiled", "value": {"tag": "Ret", "value": lib.big(1)}}
                else:
                    t, v = got[i][n]
                    o = {"tag": ["Ret", "Overflow", "DivisionByZero", "DomainViolation", "Panic"][t], "value": lib.big(v) if t == 0 else unit}
                    seen = {"tag": "Compiled", "value": o}
                    tampered = {"tag": "Compiled", "value": lib.perturb(o, 1)} if n else {"tag": "Refused", "value": unit}
                calls.append(("acceptIn", [scope, call, seen]))
                bad.append(("acceptIn", [scope, call, tampered]))
                what.append("%s as %s, edition %d%s, next to %s %s: %s: %s" % (call["tag"], scope["library"], int(scope["edition"]["#bigint"]), "" if scope["std"] else ", no std", "wrapper" if scope["wrapper"] else scope["kind"], scope["name"], text,
                                                                        "refused: " + refused[i] if i in refused else lib.plain(seen["value"])))
    res = lib.quint_judge(calls + bad, "spec/hygiene.qnt", "hygiene", ctx.dir("judge"))
    for ok, c, w in zip(res, calls, what):
        if not ok and len(ctx.violations) < 50:
            ctx.violation(w, {"arguments": c[1]})
    loose = [w for a, b, w in zip(res, res[len(calls):], what) if a and b and "Literal" in w]
    ctx.coverage = dict(
        evaluations=len(calls), distinct_nontrivial=len(set(json.dumps(c) for c in calls)),
        rule="uses of fixnum!, fixnum_const! and impl_op!, each in a module of its own with an item, a type parameter or a wrapper type that has a name out of the prelude or the library's sources, "
             "under %d names of the library, editions 2015 to 2024, with and without std; compiled and run; judged by Quint's own evaluator. Distinct: (scope, call, outcome)." % len(LIBRARIES),
        samples=[what[i] for i in pick(range(len(what)), 16)], names=len(names) + len(more), refused=sum(len(r) for r, _ in results), judged_by_quint=len(calls), tampered_rejected="%d of %d" % (sum(not x for x in res[len(calls):]), len(bad)))
    ctx.assumptions = ASSUME[:1]


# -------------------------------------------------------------------- features
FEATURES = ["std", "i16", "i32", "i64", "i128", "serde", "schemars", "parity", "quick-xml"]
ITEMS = {
    "number": "fn number{w}(x: F<i{w}, U2>) -> impl Ops<i{w}> {{ x }}",
    "literal": "const LITERAL{w}: F<i{w}, U2> = fixnum_const!(-1.25, 2);",
    "serialize": "fn serialize{w}(x: F<i{w}, U2>) -> impl serde::Serialize + for<'de> serde::Deserialize<'de> {{ x }}",
    "with": "fn with{w}<S: serde::Serializer>(x: &F<i{w}, U2>, s: S) -> Result<S::Ok, S::Error> {{ fixnum::serde::str::serialize(x, s) }}",
    "encode": "fn encode{w}(x: F<i{w}, U2>) -> impl parity_scale_codec::Encode + parity_scale_codec::Decode {{ x }}",
    "compact": "fn compact{w}(x: F<i{w}, U2>) -> impl parity_scale_codec::CompactAs<As = u{w}> {{ x }}",
    "schema": "fn schema{w}(x: F<i{w}, U2>) -> impl schemars::JsonSchema + Ops<i{w}> {{ x }}",
    "error": "fn error(x: ArithmeticError, y: ConvertError) -> (impl core::error::Error, impl core::error::Error) {{ (x, y) }}",
    "freestanding": "#[panic_handler] fn freestanding(_: &core::panic::PanicInfo) -> ! {{ loop {{}} }}",
}
LIBRARY = """#![no_std]
#![allow(dead_code, unused)]
use fixnum::{ops::*, typenum::U2, fixnum_const, ArithmeticError, ConvertError, FixedPoint as F};
trait Ops<I>: Copy + Ord + core::hash::Hash + Default + core::fmt::Debug + core::fmt::Display + core::str::FromStr + Into<f64> + Zero + One + Bounded
    + TryFrom<f64> + TryFrom<i16> + TryFrom<u128> + CheckedAdd<Output = Self> + CheckedSub<Output = Self> + CheckedMul<I, Output = Self>
    + RoundingMul<Output = Self, Error = ArithmeticError> + RoundingDiv<Output = Self> + RoundingDiv<I, Output = Self> {}
impl<I, T: Copy + Ord + core::hash::Hash + Default + core::fmt::Debug + core::fmt::Display + core::str::FromStr + Into<f64> + Zero + One + Bounded
    + TryFrom<f64> + TryFrom<i16> + TryFrom<u128> + CheckedAdd<Output = Self> + CheckedSub<Output = Self> + CheckedMul<I, Output = Self>
    + RoundingMul<Output = Self, Error = ArithmeticError> + RoundingDiv<Output = Self> + RoundingDiv<I, Output = Self>> Ops<I> for T {}"""


def build_with(ctx, slot, features, lines):
    """Is there a library with these features, and which lines does it refuse?"""
    d = ctx.dir("features-%d" % slot)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    optional = lambda f, dep: '%s = { version = "%s", default-features = false }\n' % dep if f in features else ""
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "offers"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        'fixnum = { path = "%s", default-features = false, features = %s }\n' % (lib.REPO, json.dumps(features))
        + optional("serde", ("serde", "1")) + optional("parity", ("parity-scale-codec", "3")) + optional("schemars", ("schemars", "0.8")))
    import shutil
    shutil.copy(os.path.join(lib.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    first = LIBRARY.count("\n") + 1
    refused, said = set(), ""
    # refused by resolution, refused by type checking, refused by evaluation: not all at once
    for _ in range(6):
        source = [LIBRARY] + ["" if i in refused else l for i, l in enumerate(lines)]
        open(os.path.join(d, "src", "lib.rs"), "w").write("\n".join(source) + "\n")
        r = lib.run(["cargo", "check", "--offline", "--message-format=json", "--target-dir", os.path.join(lib.TARGET, "features", str(slot))], 600, cwd=d, ok=None, extra={"CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "0"})
        other, before = "", len(refused)
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                continue
            msg, target = m["message"], m["target"]["name"]
            if target == "fixnum":
                said = said or msg["rendered"]
            elif target != "offers":
                raise ToolError("%s does not build with %s: %s" % (target, features, msg["rendered"][:2000]))
            else:
                hit = {s["line_start"] - 1 - first for s in msg["spans"] if s["is_primary"] and s["file_name"].endswith("src/lib.rs")}
                refused |= {i for i in hit if 0 <= i < len(lines)}
                if not any(0 <= i < len(lines) for i in hit) and "aborting due to" not in msg["message"]:
                    other = other or msg["rendered"]
        if r.returncode == 0 or said:
            return not said, refused, said
        if len(refused) == before:
            break
    raise ToolError("cannot tell what %s offers: %s %s" % (features, other[:2000], r.stderr[-2000:]))


def decide_C32(ctx):
    import itertools, random
    rng = random.Random(ctx.seed * 7919 + 32)
    every = [c for n in range(len(FEATURES) + 1) for c in itertools.combinations(FEATURES, n)]
    chosen = every
    if ctx.quick:
        # all pairs of features being in or out, and some more
        chosen, left = [], {(a, x, b, y) for a, b in itertools.combinations(FEATURES, 2) for x in (0, 1) for y in (0, 1)}
        covers = lambda c: {(a, x, b, y) for a, b in itertools.combinations(FEATURES, 2) for x in (0, 1) for y in (0, 1) if (a in c) == x and (b in c) == y}
        while left:
            best = max((rng.choice(every) for _ in range(60)), key=lambda c: len(covers(c) & left))
            if covers(best) & left:
                chosen.append(best)
                left -= covers(best)
        # each layout and each other feature by itself
        chosen += [(w,) for w in FEATURES[1:5]] + [(w, f) for w in FEATURES[1:5] for f in ["std"] + FEATURES[5:]]
        chosen += rng.sample(every, 40)
        chosen = sorted(set(chosen), key=lambda c: (len(c), c))
    items = [{"name": n, "w": w} for n in ITEMS for w in ((0,) if n in ("error", "freestanding") else (16, 32, 64, 128))]
    lines = [ITEMS[i["name"]].format(w=i["w"]) for i in items]
    # one request each, so that nothing of one item disturbs another
    def some(slot):
        return [(c, build_with(ctx, slot, list(c), lines)) for c in chosen[slot::8]]
    with lib.Lock("features"), ThreadPoolExecutor(8) as ex:
        results = [x for l in ex.map(some, range(8)) for x in l]
    wrap = lambda i: {"name": i["name"], "w": lib.big(i["w"])}
    calls, bad = [], []
    for c, (built, refused, _) in results:
        found = [i for k, i in enumerate(items) if k not in refused] if built else []
        args = [{"#set": list(c)}, built, {"#set": [wrap(i) for i in found]}]
        calls.append(("acceptBuild", args))
        bad.append(("acceptBuild", [args[0], True, {"#set": [wrap(i) for i in ([i for i in found if i != found[0]] if found and rng.randrange(2) else found + [{"name": "number", "w": 8}])]}]))
    lib.run(["quint", "test", "spec/features.qnt"], 120)
    res = lib.quint_judge(calls + bad, "spec/features.qnt", "features", ctx.dir("judge"))
    for ok, (c, (built, refused, said)) in zip(res, results):
        if not ok:
            what = said.splitlines()[0] if not built and said else "offers all but " + "; ".join(lines[k] for k in sorted(refused))
            ctx.violation("features %s: %s" % (",".join(c) or "none", what), {"features": c, "built": built, "said": said, "refused": sorted(refused)})
    if any(res[len(calls):]) and not ctx.violations:
        raise ToolError("Quint accepts a build with an item too many or too few")
    ctx.coverage = dict(
        evaluations=len(calls) * len(items), distinct_nontrivial=len(calls),
        rule="choices of features (%s), for each of which the library is compiled together with %d declarations that use an item each; which are refused is read from the compiler's diagnostics; "
             "judged by Quint's own evaluator; distinct: different choices; evaluations: choices times items" % ("all pairs of two features being in or out, and others" if ctx.quick else "all 512", len(items)),
        samples=[",".join(c) or "none" for c, _ in pick(results, 12)], choices=len(calls), of=len(every), built=sum(b for _, (b, _, _) in results), tampered_verdicts_rejected=len(bad))
    ctx.assumptions = ASSUME[:1]


# -------------------------------------------------------------------- machines
# name: (bits of a word, order of the bytes of a number)
MACHINES = {"i686": (32, "little"), "powerpc": (32, "big"), "s390x": (64, "big"), "x86_64": (64, "little")}
OTHERS = {"armv7": ("armv7-unknown-linux-gnueabihf", 32, "little"), "aarch64": ("aarch64-unknown-linux-gnu", 64, "little"), "riscv64": ("riscv64gc-unknown-linux-gnu", 64, "little"), "powerpc64": ("powerpc64-unknown-linux-gnu", 64, "big")}
CALLS = ["C%02d" % i for i in range(1, 19)] + ["C20", "C21", "C26", "C27", "C29"]


def miri(ctx, machine, args, timeout, source, profile=(), setup=False):
    """Runs the harness, compiled with calls, on a machine."""
    triple = OTHERS[machine][0] if machine in OTHERS else machine + "-unknown-linux-gnu"
    extra = {"RUSTUP_TOOLCHAIN": "nightly", "XDG_CACHE_HOME": os.path.join(lib.TARGET, "cache", machine), "CONFORM_EVENTS": source,
             "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-deterministic-floats -Zmiri-ignore-leaks", "MIRI_SYSROOT": None}
    extra = {k: v for k, v in extra.items() if v is not None}
    cmd = ["cargo", "miri", "setup", "--target", triple] if setup else [
        "cargo", "miri", "run", "--offline", "--features", "machine", "--target", triple, "--target-dir", os.path.join(lib.TARGET, "miri", machine)] + list(profile) + ["--", "answers"] + args
    return lib.run(cmd, timeout, cwd=lib.HARNESS, ok=None, extra=extra)


def around_words(rng):
    """A call of whose operands or intermediate results some are near the end of a word."""
    w = rng.choice([16, 32, 64, 64, 128, 128, 128])
    p = rng.choice([0, WIDTHS[w], rng.randint(0, WIDTHS[w]), rng.randint(0, WIDTHS[w])])
    end = lambda most: (1 << min(rng.choice([15, 16, 31, 32, 32, 33, 48, 63, 64, 64, 65, 96, 127, 128, 200]), most)) + rng.choice([0, 0, -1, 1, -2, rng.randint(-9, 9)])
    fit = lambda x: max(-2 ** (w - 1), min(2 ** (w - 1) - 1, x))
    sign = lambda x: fit(rng.choice([1, 1, -1]) * x)
    mode = {"tag": rng.choice(["Floor", "Ceil", "Nearest"]), "value": {"#tup": []}}
    tag = rng.choice(["RDiv", "RDiv", "RMul", "RMul", "RDivInt", "IntRDiv", "Sqrt", "CMul", "SMul", "FromDec", "FromDec", "FromF64", "IntoF64", "HalfSum", "NextPow10", "TruncBy", "RoundTo",
                      "Show", "Parse", "ParseExact", "EncodeCompact", "Encode", "FromInt", "FromInt"])
    via, one, v = "Fp", 10 ** p, {}
    # of a quotient, what is divided once it has been scaled
    a, b = sign(end(2 * w) // one + rng.randint(0, 1)), sign(end(w))
    if tag == "RMul":
        b = sign(end(2 * w) // max(abs(a), 1) + rng.randint(0, 1))
        v = dict(a=a, b=b, mode=mode, p=p)
    elif tag in ("RDiv", "IntRDiv"):
        if rng.randrange(2):
            b = sign(rng.choice([1, 2, 3, 5, 7, 10, 25, one, one // 10 + 1, rng.getrandbits(rng.randint(1, w - 1)) + 1]))
        v = dict(a=a, b=b, mode=mode, p=p)
    elif tag == "RDivInt":
        v = dict(a=sign(end(w)), b=sign(rng.choice([1, 2, 3, 10, end(w)])), mode=mode, p=p)
    elif tag == "Sqrt":
        v = dict(a=fit(abs(rng.choice([a, end(w), end(w // 2) ** 2 // one + rng.randint(0, 1)]))), mode=mode, p=p)
    elif tag in ("CMul", "SMul"):
        b = sign(end(w))
        v = dict(a=sign(end(w) // abs(b) + rng.randint(0, 1)), b=b)
    elif tag == "FromDec":
        e = rng.randint(-p, 12)
        v = dict(m=sign(end(w) // 10 ** abs(e) + rng.randint(0, 1)), e=e, p=p)
    elif tag == "FromF64":
        x = rng.choice([a, sign(end(w)), sign(end(w)) * one, sign(end(53))]) / rng.choice([one, one, 1, 1 << rng.randint(1, 60)])
        import struct
        v = dict(bits=struct.unpack("<Q", struct.pack("<d", x))[0], p=p)
    elif tag in ("IntoF64", "NextPow10", "Show", "EncodeCompact"):
        v = dict(a=sign(end(w)), p=p)
        via = "Display" if tag == "Show" else "Scale" if tag == "EncodeCompact" else via
    elif tag == "Encode":
        v, via = dict(a=sign(end(w)), b=0), rng.choice(["Scale", "Bincode"])
    if via in ("Scale", "Bincode"):
        p = rng.choice([0, WIDTHS[w]])
        v = dict(v, p=p) if "p" in v else v
    if tag == "HalfSum":
        v = dict(a=sign(end(w)), b=sign(end(w)), mode=mode, p=p)
    elif tag == "TruncBy":
        v = dict(a=sign(end(w)), b=sign(end(w) // rng.choice([1, 2, 3, 1000])))
    elif tag == "RoundTo":
        v = dict(a=sign(end(w)), mode=mode, p=p)
    elif tag in ("Parse", "ParseExact"):
        m = sign(end(w))
        t = str(abs(m)).rjust(p + 1, "0")
        v = dict(p=p, s=[lib.big(ord(c)) for c in ("-" if m < 0 else "") + (t[:-p] + "." + t[-p:] if p else t)])
    elif tag == "FromInt":
        via, bits, signed = rng.choice([("Usize", 64, 0), ("Isize", 64, 1), ("Usize", 32, 0), ("Isize", 32, 1), ("U32", 32, 0), ("U64", 64, 0), ("I64", 64, 1), ("U128", 128, 0), ("I128", 128, 1)])
        x = rng.choice([end(bits), end(w) // one + rng.randint(0, 1)])
        v = dict(a=max(-2 ** (bits - 1), min(2 ** (bits - 1) - 1, x * rng.choice([1, -1]))) if signed else min(x, 2 ** bits - 1), p=p)
    v["w"] = w
    call = {"tag": tag, "value": {k: x if isinstance(x, (list, dict, bool)) else lib.big(x) for k, x in v.items()}}
    return {"w": w, "p": p, "via": via, "call": call}


def decide_C34(ctx):
    import random, subprocess
    binary = lib.build("main")
    rng = random.Random(ctx.seed * 7919 + 34)
    machines = list(MACHINES) + ([] if ctx.quick else list(OTHERS))
    each = {m: (3000 if ctx.quick else 40000) for m in machines}
    each["x86_64"] //= 2
    # calls that this machine answers as the specification wants it
    first, rest, kinds = [], {}, set()
    for prop in CALLS:
        for k in range(1 if ctx.quick else 6):
            out = ctx.dir("sample")
            cmd = [binary, "check", prop, "--out", out, "--seed", str(ctx.seed + 1000 * k), "--scale", "0.02", "--seconds", "30"]
            r = lib.run(cmd, 150, ok=None)
            if r.returncode < 0 or r.returncode == 4:
                ctx.conform(binary, prop, 0.02, 30, "crash")
                ctx.coverage = dict(evaluations=0, distinct_nontrivial=0, rule="calls that do not return here", samples=[])
                return
            if r.returncode:
                raise ToolError("%s: exit %d\n%s" % (" ".join(cmd), r.returncode, r.stderr[-3000:]))
            l = [x for x in open(os.path.join(out, "sample.ndjson")) if len(x) < 1500]
            for x in l:
                e = json.loads(x)
                kind = (e["via"], e["call"]["tag"], e["outcome"]["tag"], e["w"] if e["w"] == 128 else 0)
                if kind in kinds:
                    rest.setdefault(e["call"]["tag"], []).append(x)
                else:
                    kinds.add(kind)
                    first.append(x)
    # as many of each operation
    for l in rest.values():
        rng.shuffle(l)
    mixed = [l[i] for i in range(max(map(len, rest.values()))) for l in rest.values() if i < len(l)]
    plan = {}
    for m in machines:
        plan[m] = rng.sample(first, len(first) // 3) + [json.dumps(around_words(rng)) for _ in range(each[m] // 3)]
        n = max(each[m] - len(plan[m]), 0)
        plan[m] += mixed[:n]
        mixed = mixed[n:] + mixed[:n]
        rng.shuffle(plan[m])
    # literals that the compiler has to take
    lits = []
    for w, p, t in random_literals(rng, 400 if ctx.quick else 4000):
        lits.append((w, p, t, {"tag": "Literal", "value": {"w": lib.big(w), "p": lib.big(p), "s": [lib.big(ord(c)) for c in t]}}))
    d = ctx.dir("machines")
    refusal = lib.quint_judge([("accept", [c, {"tag": "Reject", "value": {"#tup": []}}]) for _, _, _, c in lits], work=d)
    lits = [l for l, no in zip(lits, refusal) if not no]
    images = [(w, p, rng.choice([rng.randrange(-2 ** (w - 1), 2 ** (w - 1)), rng.choice([1, -1]) * rng.getrandbits(rng.randrange(w))])) for w in WIDTHS for p in range(WIDTHS[w] + 1) for _ in range(2)]
    platform = {m: {"word": lib.big(x[-2]), "big": x[-1] == "big"} for m, x in list(MACHINES.items()) + list(OTHERS.items())}
    # every machine gets its program, and builds it
    procs = {m: (2 if ctx.quick else 8) for m in machines}

    def prepare(m):
        given = os.path.join(d, m + ".ndjson")
        with open(given, "w") as f:
            f.writelines(x.rstrip("\n") + "\n" for x in plan[m])
        source = os.path.join(d, m + ".rs")
        lib.run([binary, "code", given, source], 120)
        with open(source, "a") as f:
            f.write("pub const LITERALS: &[fn() -> i128] = &[\n")
            for w, p, t, _ in lits:
                f.write("|| { const C: fixnum::FixedPoint<i%d, fixnum::typenum::U%d> = fixnum::fixnum_const!(%s, %d); C.into_bits() as i128 },\n" % (w, p, t, p))
            f.write("];\npub const MEMORY: &[fn() -> (Vec<u8>, i128, [usize; 2], [usize; 2])] = &[\n")
            for w, p, a in images:
                f.write("|| memory(fixnum::FixedPoint::<i%d, fixnum::typenum::U%d>::from_bits(%d), %di%d, |x| x.into_bits() as i128),\n" % (w, p, a, a, w))
            f.write("];\n")
        r = miri(ctx, m, [], 400, source, setup=True)
        if r.returncode:
            raise ToolError("no library for %s: %s" % (m, r.stderr[-3000:]))
        r = miri(ctx, m, ["--start", "1000000"], 800, source)
        if r.returncode:
            why = re.search(r"^error[^\n]*(?:\n(?!\n|warning).*)*", r.stderr, re.M)
            if why and (lib.REPO + "/src/" in r.stderr or "fixnum_const" in why[0] or "evaluation" in why[0]):
                ctx.violation("%s: %s" % (m, why[0][:1500]), {"machine": m, "stderr": r.stderr[-6000:]})
                return None
            raise ToolError("the harness does not build for %s: %s" % (m, r.stderr[-5000:]))
        return source

    def execute(job):
        m, k, source = job
        try:
            r = miri(ctx, m, ["--start", str(k), "--stride", str(procs[m])], 500 if ctx.quick else 20000, source)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            text = lambda x: x.decode() if isinstance(x, bytes) else x or ""
            return None, text(e.stdout), text(e.stderr)

    with ThreadPoolExecutor(8) as ex:
        sources = dict(zip(machines, ex.map(prepare, machines)))
        jobs = [(m, k, sources[m]) for k in range(max(procs.values())) for m in machines if sources[m] and k < procs[m]]
        results = list(ex.map(execute, jobs))
    events, literals, cut, absent, stored = [], [], [], [], []
    for (m, k, source), (code, out, err) in zip(jobs, results):
        lines = out.splitlines()
        for l in lines:
            a = l.split(" ", 2)
            if a[0] == "literal" and len(a) == 3:
                w, p, t, call = lits[int(a[1])]
                literals.append({"w": w, "p": p, "via": "fixnum_const!", "call": call, "outcome": {"tag": "Ret", "value": lib.big(int(a[2]))}, "machine": m})
            elif a[0].isdigit() and len(a) > 1 and a[1] == "missing":
                e = json.loads(plan[m][int(a[0])])
                absent.append(dict(e, outcome=e.get("outcome"), machine=m))
            elif a[0] == "memory" and l.endswith(")"):
                (w, p, x), (b, back, number, integer) = images[int(a[1])], json.loads("[%s]" % a[2][1:-1])
                n = lambda v: [lib.big(y) for y in v]
                stored.append(("%s: %d of i%d, %d digits, is %s in memory, which is %d, size and alignment %s and %s" % (m, x, w, p, b, back, number, integer),
                               ("acceptStored", [platform[m], lib.big(w), lib.big(x), n(b), lib.big(back)]), ("acceptExtents", [lib.big(w), n(number), n(integer)])))
            elif a[0].isdigit() and len(a) > 1 and l.endswith("}"):
                e = json.loads(plan[m][int(a[0])])
                events.append(dict(e, outcome=json.loads(l.split(" ", 1)[1]), here=e.get("outcome"), machine=m))
        if code == 0 and lines and lines[-1] == "end":
            continue
        last = lines[-1] if lines else ""
        e = json.loads(plan[m][int(last)]) if last.strip().isdigit() else None
        where = "%s: %s" % (m, "%s.%s %s" % (e["via"], e["call"]["tag"], json.dumps(lib.plain(e["call"]["value"]))) if e else "a call")
        if code is None:
            cut.append(m)
            if e:
                # is it this call?
                alone = os.path.join(d, "alone.rs")
                one = os.path.join(d, "alone.ndjson")
                open(one, "w").write(json.dumps(e) + "\n")
                lib.run([binary, "code", one, alone], 60)
                open(alone, "a").write("pub const LITERALS: &[fn() -> i128] = &[]; pub const MEMORY: &[fn() -> (Vec<u8>, i128, [usize; 2], [usize; 2])] = &[];\n")
                try:
                    miri(ctx, m, [], 120, alone)
                except subprocess.TimeoutExpired:
                    ctx.violation(where + " does not return", dict(e, machine=m))
            continue
        err = err.rsplit("Running `", 1)[-1]  # what came before is the compiler's
        why = re.search(r"^error[^\n]*(?:\n(?!\n).*)*", err, re.M)
        why = why[0] if why else err[-1500:]
        if lib.REPO + "/src/" not in err:
            raise ToolError("%s: exit %s: %s" % (where, code, err[-4000:]))
        ctx.violation("%s: %s" % (where, why[:1500]), dict(e or {}, machine=m, stderr=err[-4000:]))
    # what they answered, judged
    f, g = os.path.join(d, "answers.ndjson"), os.path.join(d, "answers.out")
    with open(f, "w") as h:
        for e in events:
            h.write(json.dumps({k: e[k] for k in ("w", "p", "via", "call", "outcome")}) + "\n")
    lib.run([binary, "judge", f, g], 600)
    verdicts = [l.strip() == "true" for l in open(g)]
    if len(verdicts) != len(events):
        raise ToolError("%d verdicts for %d answers" % (len(verdicts), len(events)))
    wrong = [e for e, ok in zip(events, verdicts) if not ok][:200]
    # where the specification leaves a choice, machines must not choose differently
    differ = [e for e, ok in zip(events, verdicts) if ok and e["here"] and e["here"] != e["outcome"]][:200]
    right = [e for e, ok in zip(events, verdicts) if ok and (not e["here"] or e["here"] == e["outcome"])]
    sample = rng.sample(right, min(len(right), 500 if ctx.quick else 4000))
    nothing = {"tag": "Reject", "value": {"#tup": []}}

    def seen(e, made=True):
        here = e.get("here")
        return ("acceptOn", [platform[e["machine"]], e["via"], e["call"], {"made": made, "answer": e["outcome"] or nothing, "known": bool(here), "other": here or nothing}])
    spot = literals if not ctx.quick else rng.sample(literals, min(len(literals), 600))
    bad = [dict(e, here=None, outcome=lib.perturb(e["outcome"], i)) for i, e in enumerate(sample)]
    missing = absent if not ctx.quick else rng.sample(absent, min(len(absent), 300))
    lib.run(["quint", "test", "spec/platform.qnt"], 120)
    groups = [wrong + differ, sample, spot, bad, missing]
    cases = [seen(e) for l in groups[:4] for e in l] + [seen(e, False) for e in missing] + [c for _, *l in stored for c in l]
    res = lib.quint_judge(cases, "spec/platform.qnt", "platform", d)
    take = iter(res)
    for l, what in zip(groups, ("unlike", "like", "literal", "tampered", "absent")):
        for e in l:
            ok = next(take)
            text = "%s: %s" % (e["machine"], lib.readable(e) if e["outcome"] else "%s.%s %s" % (e["via"], e["call"]["tag"], json.dumps(lib.plain(e["call"]["value"]))))
            if what == "unlike" and ok:
                raise ToolError("Quint accepts what its translation rejects: " + text)
            if what == "like" and not ok:
                raise ToolError("Quint rejects what its translation accepts: " + text)
            if what == "tampered" or ok:
                continue
            if what == "absent":
                raise ToolError("a call has not been made that the machine has: " + text)
            ctx.violation(text + (", here %s" % json.dumps(lib.plain(e["here"])) if e.get("here") else ""), e)
    for text, *l in stored:
        if not all([next(take) for _ in l]):
            ctx.violation(text, {"what": text})
    at = sum(map(len, groups[:3]))
    caught = sum(not x for x in res[at:at + len(bad)])
    if bad and not caught:
        raise ToolError("no tampered outcome is rejected")
    if len(events) < sum(each.values()) // 4 and not ctx.violations:
        raise ToolError("only %d of %d calls have been answered" % (len(events), sum(each.values())))
    ctx.coverage = dict(
        evaluations=len(events) + len(literals), distinct_nontrivial=len({json.dumps([e["machine"], e["via"], e["call"]]) for e in events}),
        rule="calls of C01-C18, C20, C21, C26, C27, C29 that this machine answers as the specification wants it (the first of every kind, then as many of each property), and integers around the ends of a word; "
             "executed by Miri, which reports undefined behaviour, for %s; literals as constants of each; numbers in its memory; outcomes judged by the specification's translation, a sample by Quint's own evaluator. "
             "Distinct: (machine, entry point, call)" % ", ".join("%s (%d bits, %s endian)" % ((m,) + (MACHINES[m] if m in MACHINES else OTHERS[m][1:])) for m in machines),
        samples=["%s: %s" % (e["machine"], lib.readable(e)) for e in pick(events, 14)], literals=len(literals), not_there=len(absent), cut_by_time=cut,
        by_machine={m: sum(e["machine"] == m for e in events) for m in machines}, memory=len(stored),
        judged_by_quint=len(cases) - len(bad), tampered_outcomes_rejected="%d of %d" % (caught, len(bad)))
    ctx.assumptions = ASSUME[:2] + ["Miri executes the machine's code as the machine would; it does not report aliasing that is not settled yet"]
