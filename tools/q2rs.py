#!/usr/bin/env python3
"""Translate the pure part of a Quint specification into Rust.

Input: the JSON that `quint typecheck FILE --out` writes (declarations and
inferred types).  Output: one Rust file.  Only what the specification uses is
supported; anything else is an error, never a guess.

  int          -> Z (arbitrary precision)         bool -> bool
  List[T]      -> Vec<T>                          record -> struct, by its fields
  sum type     -> enum                            pure val -> lazily built static
"""
import json
import sys

KEYWORDS = {"match", "type", "mod", "ref", "move", "box", "in", "final", "loop"}
BOOL_OPS = {"and", "or"}


class Err(Exception):
    pass


def ident(n):
    n = n.replace("::", "_")
    if n == "_":
        return "_unused"
    n = n.lstrip("_") if n.startswith("__") else n
    return "r#" + n if n in KEYWORDS else n


class Gen:
    def __init__(self, ir):
        self.types = {int(k): v for k, v in ir["types"].items()}
        self.defs, self.typedefs, self.order = {}, {}, []
        for m in ir["modules"]:
            for d in m["declarations"]:
                if d["kind"] == "def":
                    self.defs[d["name"]] = d
                    self.order.append(d["name"])
                elif d["kind"] == "typedef":
                    self.typedefs[d["name"]] = d["type"]
                elif d["kind"] in ("import", "export"):
                    pass
                else:
                    raise Err("declaration " + d["kind"])
        self.variant_of = {}
        for n, t in self.typedefs.items():
            if t["kind"] == "sum":
                for f in t["fields"]["fields"]:
                    if f["fieldName"] in self.variant_of:
                        raise Err("variant twice: " + f["fieldName"])
                    self.variant_of[f["fieldName"]] = (n, f["fieldType"])
        self.records = {}  # tuple(sorted fields) -> {field: rust type}
        self.tmp = 0

    # ------------------------------------------------------------- types
    def ty(self, t):
        k = t["kind"]
        if k == "int":
            return "Z"
        if k == "bool":
            return "bool"
        if k == "str":
            return "String"
        if k == "list":
            return "Vec<%s>" % self.ty(t["elem"])
        if k == "const":
            d = self.typedefs[t["name"]]
            return t["name"] if d["kind"] == "sum" else self.ty(d)
        if k == "rec":
            return self.rec(t)
        if k == "sum":
            names = {f["fieldName"] for f in t["fields"]["fields"]}
            for n, d in self.typedefs.items():
                if d["kind"] == "sum" and {f["fieldName"] for f in d["fields"]["fields"]} == names:
                    return n
        raise Err("type " + json.dumps(t))

    def rec(self, t):
        fs = t["fields"]["fields"]
        key = tuple(sorted(f["fieldName"] for f in fs))
        tys = {f["fieldName"]: self.ty(f["fieldType"]) for f in fs}
        old = self.records.setdefault(key, tys)
        if old != tys:
            raise Err("record fields %s with two types" % (key,))
        return self.recname(key)

    @staticmethod
    def recname(key):
        return "R_" + "_".join(key)

    def is_unit(self, t):
        return t["kind"] in ("tup", "rec") and not t.get("fields", {}).get("fields")

    # ------------------------------------------------------- expressions
    # env: name -> 'ref' (a &T in scope) or 'own' (a T in scope)
    def ref(self, e, env):
        """An expression of type &T."""
        if e["kind"] == "name":
            n = e["name"]
            if n in env:
                return ident(n) if env[n] == "ref" else "&" + ident(n)
            if n in self.defs and self.defs[n]["qualifier"] == "pureval":
                return "%s()" % ident(n)
        if e["kind"] == "app" and e["opcode"] == "field":
            return "&%s.%s" % (self.paren(self.ref(e["args"][0], env)), ident(e["args"][1]["value"]))
        if e["kind"] == "app" and e["opcode"] == "nth":
            return "z::nth(%s, %s)" % (self.ref(e["args"][0], env), self.ref(e["args"][1], env))
        return "&" + self.paren(self.val(e, env))

    @staticmethod
    def paren(s):
        return "(" + s + ")"

    def val(self, e, env):
        """An expression of type T."""
        k = e["kind"]
        if k == "int":
            v = e["value"]
            if not isinstance(v, int) or abs(v) > 2**53:
                raise Err("integer literal %r" % (v,))
            return "z::zi(%d)" % v
        if k == "bool":
            return "true" if e["value"] else "false"
        if k == "str":
            return json.dumps(e["value"]) + ".to_string()"
        if k == "name":
            n = e["name"]
            if n in env:
                return ident(n) + ".clone()"
            if n in self.variant_of:
                s, _ = self.variant_of[n]
                return "%s::%s" % (s, n)
            if n in self.defs:
                return "%s().clone()" % ident(n)
            raise Err("name " + n)
        if k == "let":
            d = e["opdef"]
            if d["expr"]["kind"] == "lambda":
                raise Err("local function " + d["name"])
            body = self.val(d["expr"], env)
            return "{ let %s = %s; %s }" % (
                ident(d["name"]), body, self.val(e["expr"], {**env, d["name"]: "own"}))
        if k == "app":
            return self.app(e, env)
        raise Err("expression " + k)

    def app(self, e, env):
        op, a = e["opcode"], e["args"]
        R = lambda i: self.ref(a[i], env)
        V = lambda i: self.val(a[i], env)
        ar = {"iadd": "add", "isub": "sub", "imul": "mul", "idiv": "div", "imod": "rem", "ipow": "pow"}
        if op in ar:
            return "z::%s(%s, %s)" % (ar[op], R(0), R(1))
        if op == "iuminus":
            return "z::neg(%s)" % R(0)
        cm = {"ilt": "<", "ilte": "<=", "igt": ">", "igte": ">=", "eq": "==", "neq": "!="}
        if op in cm:
            return "(%s %s %s)" % (R(0), cm[op], R(1))
        if op == "and":
            return "(" + " && ".join(self.val(x, env) for x in a) + ")" if a else "true"
        if op == "or":
            return "(" + " || ".join(self.val(x, env) for x in a) + ")" if a else "false"
        if op == "not":
            return "!(%s)" % V(0)
        if op == "implies":
            return "(!(%s) || %s)" % (V(0), V(1))
        if op == "iff":
            return "(%s == %s)" % (V(0), V(1))
        if op == "ite":
            return "if %s { %s } else { %s }" % (V(0), V(1), V(2)) if False else \
                "(if %s { %s } else { %s })" % (V(0), V(1), V(2))
        if op == "field":
            return "(%s).clone()" % self.ref(e, env)
        if op == "Rec":
            fs = {a[i]["value"]: self.val(a[i + 1], env) for i in range(0, len(a), 2)}
            key = tuple(sorted(fs))
            if key not in self.records:
                t = self.types[e["id"]]
                t = t.get("type", t)
                self.ty(t)
            return "%s { %s }" % (self.recname(key), ", ".join("%s: %s" % (ident(f), x) for f, x in fs.items()))
        if op == "List":
            return "vec![%s]" % ", ".join(self.val(x, env) for x in a)
        if op == "nth":
            return "z::nth(%s, %s).clone()" % (R(0), R(1))
        if op == "length":
            return "z::length(%s)" % R(0)
        if op == "append":
            return "z::append(%s, %s)" % (V(0), V(1))
        if op == "concat":
            return "z::concat(%s, %s)" % (V(0), R(1))
        if op == "replaceAt":
            return "z::replace(%s, %s, %s)" % (V(0), R(1), V(2))
        if op == "slice":
            return "z::slice(%s, %s, %s)" % (R(0), R(1), R(2))
        if op == "foldl":
            f = a[2]
            if f["kind"] != "lambda":
                raise Err("foldl with a named function")
            x, y = (p["name"] for p in f["params"])
            acc = "mut_acc" if False else ident(x)
            if a[0]["kind"] == "app" and a[0]["opcode"] == "range":
                r = a[0]["args"]
                body = self.val(f["expr"], {**env, x: "own", y: "own"})
                return "z::fold_range(%s, %s, %s, |%s, %s| %s)" % (
                    self.ref(r[0], env), self.ref(r[1], env), V(1), acc, self.under(y, acc), body)
            body = self.val(f["expr"], {**env, x: "own", y: "ref"})
            return "z::fold(%s, %s, |%s, %s| %s)" % (R(0), V(1), acc, self.under(y, acc), body)
        if op == "matchVariant":
            out, other = [], False
            for i in range(1, len(a), 2):
                lab, lam = a[i]["value"], a[i + 1]
                p = lam["params"][0]["name"] if lam["params"] else "_"
                if lab == "_":
                    out.append("_ => %s" % self.val(lam["expr"], env))
                    other = True
                    continue
                s, t = self.variant_of[lab]
                if self.is_unit(t):
                    out.append("%s::%s => %s" % (s, lab, self.val(lam["expr"], env)))
                elif p.startswith("_"):
                    out.append("%s::%s(_) => %s" % (s, lab, self.val(lam["expr"], env)))
                else:
                    out.append("%s::%s(%s) => %s" % (s, lab, ident(p), self.val(lam["expr"], {**env, p: "ref"})))
            return "(match %s { %s })" % (R(0), ", ".join(out))
        if op == "variant":
            s, t = self.variant_of[a[0]["value"]]
            return "%s::%s" % (s, a[0]["value"]) + ("" if self.is_unit(t) else "(%s)" % V(1))
        if op in self.variant_of:
            s, _ = self.variant_of[op]
            return "%s::%s(%s)" % (s, op, V(0))
        if op in self.defs:
            return "%s(%s)" % (ident(op), ", ".join(self.ref(x, env) for x in a))
        raise Err("operator " + op)

    def under(self, y, acc):
        r = ident(y)
        return "_ignored" if r == acc or y.startswith("_") else r

    # ------------------------------------------------------ declarations
    def decl(self, name):
        d = self.defs[name]
        if name in self.variant_of:
            return None
        t = self.types[d["id"]]
        t = t.get("type", t)
        if d.get("typeAnnotation"):
            t = d["typeAnnotation"]
        if d["qualifier"] == "pureval":
            r = self.ty(t)
            return ("pub fn {n}() -> &'static {r} {{\n    static V: std::sync::OnceLock<{r}> = std::sync::OnceLock::new();\n"
                    "    V.get_or_init(|| {b})\n}}\n").format(n=ident(name), r=r, b=self.val(d["expr"], {}))
        if d["qualifier"] != "puredef":
            raise Err("qualifier %s of %s" % (d["qualifier"], name))
        lam = d["expr"]
        ps, env = [], {}
        for p, pt in zip(lam["params"], t["args"]):
            ps.append("%s: &%s" % (ident(p["name"]), self.ty(pt)))
            env[p["name"]] = "ref"
        return "pub fn %s(%s) -> %s {\n    %s\n}\n" % (
            ident(name), ", ".join(ps), self.ty(t["res"]), self.val(lam["expr"], env))

    def run(self):
        body = []
        for n in self.order:
            try:
                s = self.decl(n)
            except Err as e:
                raise Err("%s: %s" % (n, e))
            if s:
                body.append(s)
        head = ["// Generated from the Quint specification by tools/q2rs.py.\n"]
        D = "#[derive(Clone, PartialEq, Eq, Hash, Debug)]\n"
        for n, t in self.typedefs.items():
            if t["kind"] == "sum":
                vs = []
                for f in t["fields"]["fields"]:
                    vs.append("    " + f["fieldName"] + ("" if self.is_unit(f["fieldType"]) else "(%s)" % self.ty(f["fieldType"])))
                head.append(D + "pub enum %s {\n%s,\n}\n" % (n, ",\n".join(vs)))
                head.append("impl ToQuint for %s {\n    fn quint(&self, o: &mut String) {\n        match self {\n%s        }\n    }\n}\n" % (
                    n, "".join(
                        "            Self::%s => o.push_str(%s),\n" % (f["fieldName"], json.dumps('{"tag":"%s","value":null}' % f["fieldName"]))
                        if self.is_unit(f["fieldType"]) else
                        "            Self::%s(x) => { o.push_str(%s); x.quint(o); o.push('}'); }\n" % (
                            f["fieldName"], json.dumps('{"tag":"%s","value":' % f["fieldName"]))
                        for f in t["fields"]["fields"])))
                head.append("impl FromQuint for %s {\n    fn from_quint(j: &J) -> Option<Self> {\n        let v = j.get(\"value\");\n        Some(match j.get(\"tag\")?.str()? {\n%s            _ => return None,\n        })\n    }\n}\n" % (
                    n, "".join(
                        "            \"%s\" => Self::%s,\n" % (f["fieldName"], f["fieldName"])
                        if self.is_unit(f["fieldType"]) else
                        "            \"%s\" => Self::%s(FromQuint::from_quint(v?)?),\n" % (f["fieldName"], f["fieldName"])
                        for f in t["fields"]["fields"])))
                head.append("impl %s {\n    pub fn tag(&self) -> &'static str {\n        match self {\n%s        }\n    }\n}\n" % (
                    n, "".join("            Self::%s%s => \"%s\",\n" % (f["fieldName"], "" if self.is_unit(f["fieldType"]) else "(..)", f["fieldName"])
                               for f in t["fields"]["fields"])))
        for key, tys in sorted(self.records.items()):
            nm = self.recname(key)
            head.append("#[allow(non_camel_case_types)]\n" + D + "pub struct %s {\n%s}\n" % (
                nm, "".join("    pub %s: %s,\n" % (ident(f), tys[f]) for f in key)))
            head.append("impl ToQuint for %s {\n    fn quint(&self, o: &mut String) {\n%s    }\n}\n" % (
                nm, "".join("        o.push_str(%s); self.%s.quint(o);\n" % (
                    json.dumps(("{" if i == 0 else ",") + '"%s":' % f), ident(f)) for i, f in enumerate(key)) + "        o.push('}');\n"))
            head.append("impl FromQuint for %s {\n    fn from_quint(j: &J) -> Option<Self> {\n        Some(Self { %s })\n    }\n}\n" % (
                nm, ", ".join('%s: FromQuint::from_quint(j.get("%s")?)?' % (ident(f), f) for f in key)))
        for n, t in self.typedefs.items():
            if t["kind"] != "sum":
                head.append("pub type %s = %s;\n" % (n, self.ty(t)))
        return "\n".join(head + body)


if __name__ == "__main__":
    ir = json.load(open(sys.argv[1]))
    text = Gen(ir).run()
    try:
        if open(sys.argv[2]).read() == text:
            sys.exit(0)
    except OSError:
        pass
    open(sys.argv[2], "w").write(text)
