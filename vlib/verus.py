"""Verus layer: contracts attached to the functions of /repo's current source, verified in place.

The whole crate is copied, contracts are inserted (vlib/inject.py: insertions only, erasing them gives
the original file byte for byte), and Verus verifies the copy. Contracts are in verus/contracts.py, the
vocabulary they use in verus/spec.rs.
"""
import importlib.util, json, os, re, shutil, time
from .common import *
from .inject import B, E, Source, Lost, erase, close, body_of, mask

TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"
VERUS = "/opt/veriftools/verus/verus"
DIR = os.path.join(BUILD, "verus")
DEPS = os.path.join(BUILD, "verus-deps")
FEATURES = ["parse", "format", "encode"]


def contracts():
    s = importlib.util.spec_from_file_location("verus_contracts", os.path.join(VERIF, "verus", "contracts.py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


# ---------------------------------------------------------------- dependencies

def prepare():
    """Build the dependencies with the toolchain Verus drives. -> seconds"""
    t = time.time()
    d = os.path.join(BUILD, "verus-deps-crate")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    toml = re.sub(r"\[\[bench\]\].*?(?=\n\[|\Z)", "", toml, flags=re.S)
    toml = re.sub(r"\[dev-dependencies\].*?(?=\n\[|\Z)", "", toml, flags=re.S)
    toml = re.sub(r"readme\s*=.*\n", "", toml) + "\n[workspace]\n"
    if not os.path.exists(os.path.join(d, "Cargo.toml")) or open(os.path.join(d, "Cargo.toml")).read() != toml:
        open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    # an empty crate: only its dependencies matter
    open(os.path.join(d, "src", "lib.rs"), "a").close()
    rc, out, _ = run(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--message-format", "json", "--target-dir", DEPS],
                     cwd=d, timeout=900)
    ext = {}
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if x.get("reason") == "compiler-artifact":
                for f in x.get("filenames", []):
                    if f.endswith(".rlib") or f.endswith(".so"):
                        ext[x["target"]["name"].replace("-", "_")] = f
    if rc != 0 or not ext:
        raise CheckError("building the dependencies for Verus failed: " + out[-2000:])
    direct = re.findall(r"^([\w-]+)\s*=", toml[toml.index("[dependencies]"):toml.index("[features]")], re.M)
    jdump(os.path.join(BUILD, "verus-deps.json"),
          {n.replace("-", "_"): ext[n.replace("-", "_")] for n in direct if n.replace("-", "_") in ext})
    return time.time() - t


def externs():
    p = os.path.join(BUILD, "verus-deps.json")
    ok = os.path.exists(p) and all(os.path.exists(f) for f in json.load(open(p)).values())
    if not ok:
        prepare()
    r = []
    for n, f in json.load(open(p)).items():
        r += ["--extern", "%s=%s" % (n, f)]
    return r + ["-L", "dependency=" + os.path.join(DEPS, "debug", "deps")]


# ---------------------------------------------------------------- finding code

class Tree:
    """The sources of the crate, by path relative to src."""

    def __init__(self):
        self.files = {}
        root = os.path.join(REPO, "src")
        for d, _, fs in os.walk(root):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    self.files[rel] = Source(rel, open(p, encoding="utf8").read())

    def impls(self, typ, trait=None):
        """All impl blocks of a type (inherent, or of a trait): (source, start, body, end). A trait written with its
        arguments, or a type that is not just a name, is compared as written."""
        r = []
        for s in self.files.values():
            for x in re.finditer(r"(?m)^[ \t]*(?:unsafe\s+)?impl\b", s.m[:s.end]):
                h = x.end() - 4
                b = body_of(s.m, h)
                if b is None:
                    continue
                head = re.sub(r"\s+", " ", s.m[h:b])
                head = head.split(" where ")[0]
                t = re.search(r"\bfor (?!<)([\w:$]+)", head)
                if trait is None:
                    if t or not re.search(r"^impl(?:<(?:[^<>]|<[^<>]*>)*>)? (?:[\w]+::)*%s\b" % re.escape(typ), head):
                        continue
                else:
                    if re.match(r"[$\w]+\Z", typ):
                        if not t or t.group(1).split("::")[-1] != typ:
                            continue
                    elif not head.rstrip().endswith(" for " + typ):
                        continue
                    if not re.search(r"(?:\b|^)%s%s for(?!\w)" % (re.escape(trait), "" if "<" in trait else "(?:<[^>]*>)?"), head):
                        continue
                r.append((s, h, b, close(s.m, b)))
        return r

    def find(self, where, name):
        """where: '' (free function), 'Type' or 'Trait for Type'. -> (source, impl|None, fn header start)"""
        hits = []
        name, _, nth = name.partition("#")      # name#k: the k-th of several, alike for their contract
        nth = int(nth) if nth else None
        if where == "" or where.startswith("in "):
            for s in self.files.values():
                if where and s.path != where[3:]:
                    continue
                for n, p in s.fns_top():
                    if n == name:
                        hits.append((s, None, p))
        else:
            trait, _, typ = where.rpartition(" for ")
            for s, h, b, e in self.impls(typ, trait or None):
                for n, p in s.fns(b + 1, e - 1):
                    if n == name:
                        hits.append((s, (h, b, e), p))
        if len(hits) != 1 and nth is None:
            raise Lost("%d functions match %s::%s" % (len(hits), where, name))
        if nth is not None and nth >= len(hits):
            raise Lost("fewer than %d functions match %s::%s" % (nth + 1, where, name))
        return hits[nth or 0]


# ---------------------------------------------------------------- annotating

def header_start(s, p):
    """Start of the visibility and qualifiers in front of `fn` at p."""
    x = re.search(r"(?:pub(?:\s*\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?\Z", s.m[:p])
    return x.start() if x else p


def closures(m, a, b):
    """Positions (start of '|', end of parameter list) of the closures in m[a:b], in order."""
    r, k = [], a
    while k < b:
        x = re.compile(r"(?<![|])\|(?!\|)([^|]*)\||\|\|").search(m, k, b)
        if not x:
            return r
        before = m[:x.start()].rstrip()
        if before.endswith("move") or (before and before[-1] in "(,={;>") or re.search(r"\breturn$", before):
            r.append((x.start(), x.end()))
            k = x.end()
        else:
            k = x.start() + (2 if x.group(0) == "||" else 1)
    return r


def expr_end(m, i, b):
    """End of the closure body expression starting at i: up to an unmatched closer, ',' or ';'."""
    k = i
    while k < b:
        c = m[k]
        if c in "([{":
            k = close(m, k)
            continue
        if c in ")]},;":
            return k
        k += 1
    return k


def loops(m, a, b):
    """Positions of the loop keywords in m[a:b], in order."""
    return [x.start() for x in re.finditer(r"\b(?:while|for|loop)\b(?!\s*<)", m[a:b]) for _ in [0]
            ] and [a + x.start() for x in re.finditer(r"\b(?:while|for|loop)\b(?!\s*<)", m[a:b])]


def heads(s, a, b):
    """The loops of a body as they are written, from the keyword to the brace."""
    r = []
    for p in loops(s.m, a, b):
        k, d = p, 0
        while d or s.m[k] != "{":
            d += s.m[k] in "([{"
            d -= s.m[k] in ")]}"
            k += 1
        r.append(re.sub(r"\s+", " ", s.m[p:k]).strip())
    return r


def anchor(s, a, b, text):
    """Unique place of a text in the body, blanks not significant."""
    toks = re.findall(r"\w+|[^\w\s]", text)
    rx = re.compile(r"\s*".join(re.escape(t) for t in toks))
    hits = [x for x in rx.finditer(s.text, a, b)]
    if len(hits) != 1:
        raise Lost("%d places match `%s`" % (len(hits), text))
    return hits[0].start(), hits[0].end()


def annotate_body(s, a, b, actions):
    """Insertions inside a function body s.text[a:b]; raises Lost when an anchor is gone."""
    ins = []
    m = s.m
    for act in actions:
        kind = act[0]
        if kind == "closure":
            # ('closure', index, [parameter types], return type, spec[, text in it]); $0, $1.. stand for the parameter names
            _, i, types, ret, spec = act[:5]
            cs = closures(m, a, b)
            if len(cs) <= i:
                raise Lost("closure %d" % i)
            p, q = cs[i]
            if act[5:] and act[5] not in s.text[q:expr_end(m, q, b)]:
                raise Lost("closure %d without `%s`" % (i, act[5]))
            if s.text[p + 1:q - 1].lstrip().startswith("("):
                # |(x, y)| E  ->  |by_pat| { let (x, y) = by_pat; E }
                ins.append((p, "#[verus_spec(%s)] " % spec.replace("$0", "by_pat")))
                ins.append((p + 1, "by_pat: %s| -> %s { let " % (types[0], ret)))
                ins.append((q - 1, " = by_pat; /* "))
                ins.append((q, " */"))
                ins.append((expr_end(m, q, b), "}"))
                continue
            params = [x.strip() for x in s.text[p + 1:q - 1].split(",") if x.strip()]
            if len(params) != len(types):
                raise Lost("closure %d has %d parameters" % (i, len(params)))
            names = []
            pos = p + 1
            for prm, t in zip(params, types):
                pos = s.text.index(prm, pos) + len(prm)
                x = re.match(r"^&?\s*(?:mut\s+)?(\w+)", prm)
                names.append(x.group(1) if x else "_")
                if ":" not in prm and t:
                    ins.append((pos, ": " + t))
            ref = len(params) == 1 and re.match(r"^&\s*(\w+)$", params[0])
            for j, n in enumerate(names):
                spec = spec.replace("$%d" % j, "(*by_ref)" if ref else n)
            ins.append((p, "#[verus_spec(%s)] " % spec))
            if ref:
                # |&x| E  ->  |by_ref| { let x = *by_ref; E }
                e = expr_end(m, q, b)
                ins = [i for i in ins if not (p < i[0] < q)]
                ins.append((p + 1, "by_ref: %s| -> %s { let %s = *by_ref; /* " % (types[0], ret, names[0])))
                ins.append((q, " */"))
                ins.append((e, "}"))
                continue
            k = q
            while m[k].isspace():
                k += 1
            if m.startswith("->", k):
                continue
            e = expr_end(m, k, b)
            ins.append((q, " -> " + ret))
            if m[k] != "{" or close(m, k) < len(m[:e].rstrip()):
                ins.append((q, " {"))
                ins.append((e, "}"))
        elif kind == "loop":
            _, i, spec = act[:3]
            ls = loops(m, a, b)
            if len(ls) <= i:
                raise Lost("loop %d" % i)
            ins.append((ls[i], "#[verus_spec(%s)]\n" % spec))
        elif kind in ("afterloop", "endloop"):
            ls = loops(m, a, b)
            if len(ls) <= act[1]:
                raise Lost("loop %d" % act[1])
            k, d = ls[act[1]], 0
            while d or m[k] != "{":
                d += m[k] in "([{"
                d -= m[k] in ")]}"
                k += 1
            ins.append((close(m, k), "\n" + act[2]) if kind == "afterloop" else (close(m, k) - 1, act[2]))
        elif kind == "loops":
            if len(loops(m, a, b)) != act[1]:
                raise Lost("%d loops instead of %d" % (len(loops(m, a, b)), act[1]))
        elif kind == "fn":
            # a function nested in this one
            hits = [x for x in re.finditer(r"\bfn\s+%s\b" % act[1], m[a:b])]
            if len(hits) != 1:
                raise Lost("nested function %s" % act[1])
            ins.append((a + hits[0].start(), "#[verus_spec(%s)]\n" % act[2]))
        elif kind == "hoist":
            # a struct defined inside the function, read as one defined at the end of the file
            hits = [x for x in re.finditer(r"\bstruct\s+%s\b" % act[1], m[a:b])]
            if len(hits) != 1:
                raise Lost("nested struct %s" % act[1])
            h = a + hits[0].start()
            k = s.lead(h)
            e = close(m, body_of(m, h))
            ins += [(k, "/* "), (e, " */")]
            text, sub = s.text[k:e], []
            if "*/" in text:
                raise Lost("nested struct %s" % act[1])
            widen(s, body_of(m, h) + 1, e - 1, sub)
            for q, x in sorted(sub + [(h, "pub ")], reverse=True):
                text = text[:q - k] + x + text[q - k:]
            ins.append((len(s.text), "\nvstd::prelude::verus!{\n%s\n%s\n}\n" % (text, act[2])))
        elif kind == "start":
            ins.append((a, act[1]))
        elif kind == "split":
            # P | Q => E,  ->  P => E, | Q => E,
            k = anchor(s, a, b, act[1])[1]
            x = re.compile(r"\s*\|[^|=]*=>\s*").match(m, k)
            if not x:
                raise Lost("no or-pattern after `%s`" % act[1])
            ins.append((k, " => %s, " % s.text[x.end():expr_end(m, x.end(), b)]))
        elif kind == "wrap":
            # .name(..)  ->  .wrapper(..): a provided trait method called through a wrapper with a contract
            # name#k: only the k-th such call
            name, _, nth = act[1].partition("#")
            found = list(re.finditer(r"\.\s*%s\b(?=\s*(?:::|\())" % name, m[a:b]))
            if nth and int(nth) >= len(found):
                raise Lost("call %s of .%s" % (nth, name))
            for x in found[int(nth):int(nth) + 1] if nth else found:
                ins.append((a + x.start(), ".%s /* " % act[2]))
                ins.append((a + x.end(), " */"))
        elif kind == "eq":
            # x == y  ->  x.eq_of(y): comparison through a wrapper with a contract
            for x in re.finditer(r"(?<![\w.])[\w.]+\s*(==)\s*([\w.]+)(?![\w.(])", m[a:b]):
                ins.append((a + x.start(1), ".eq_of(%s/* " % act[1]))
                ins.append((a + x.end(1), " */"))
                ins.append((a + x.end(2), ")"))
        elif kind == "each":
            # for x in E {  ->  for x in E.wrapper() {
            ls = loops(m, a, b)
            if len(ls) <= act[1]:
                raise Lost("loop %d" % act[1])
            k, d = ls[act[1]], 0
            while d or m[k] != "{":
                d += m[k] in "([{"
                d -= m[k] in ")]}"
                k += 1
            ins.append((len(m[:k].rstrip()), "." + act[2] + "()"))
        elif kind == "subst":
            # every `text` read as the replacement
            toks = re.findall(r"\w+|[^\w\s]", act[1])
            for x in re.compile(r"\s*".join(re.escape(t) for t in toks)).finditer(m, a, b):
                ins.append((x.start(), act[2] + " /* "))
                ins.append((x.end(), " */"))
        elif kind == "before":
            ins.append((anchor(s, a, b, act[1])[0], act[2]))
        elif kind == "tail":
            # before the function's last expression, which is this text
            k = len(s.text[a:b].rstrip().rstrip("}").rstrip()) + a
            if not s.text[a:k].endswith(act[1]):
                raise Lost("the body does not end with `%s`" % act[1])
            ins.append((k - len(act[1]), act[2]))
        elif kind == "after":
            ins.append((anchor(s, a, b, act[1])[1], act[2]))
        else:
            raise CheckError("unknown action " + kind)
    return ins


def widen(s, a, b, ins):
    """Insert `pub` in front of the private fields of the struct body s.m[a:b]."""
    d, start = 0, True
    k = a
    while k < b:
        c = s.m[k]
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s.m[k - 1] != "-"):
            d -= 1
        if d == 0 and start and (c.isalpha() or c == "_"):
            if not s.m.startswith("pub", k) and not s.m.startswith("#", k):
                ins.append((k, "pub "))
            start = False
        if d == 0 and c == ",":
            start = True
        if d == 0 and c == "#":          # an attribute: skip
            k = close(s.m, s.m.index("[", k))
            continue
        k += 1


ESC = {"\\\\": "\\", '\\"': '"', "\\'": "'", "\\t": "\t", "\\n": "\n", "\\r": "\r"}


def literals(texts):
    """Lemmas, proved by Verus, on which characters the string literals in these texts have."""
    fns = []
    for t in dict.fromkeys(x for y in texts for x in re.findall(r'"(?:[^"\\]|\\.)*"', y)):
        cs = re.findall(r"\\.|[^\\]", t[1:-1])
        if not cs or len(cs) > 24 or any(len(c) == 2 and c not in ESC for c in cs):
            continue
        n = len(fns)
        has = " || ".join("c as u32 == %d" % ord(ESC.get(c, c)) for c in cs)
        at = "".join("assert(%s@[%d] as u32 == %d); " % (t, i, ord(ESC.get(c, c))) for i, c in enumerate(cs))
        fns.append("pub broadcast proof fn lit%d(c: char)\n    ensures #[trigger] found(%s@, c) == (%s)\n"
                   "{\n    reveal_strlit(%s); found_char(%s@, c); assert(%s@.len() == %d); %s\n}\n" % (n, t, has, t, t, t, len(cs), at))
    return ("\nverus! {\npub open spec fn nothing(i: int) -> bool { true }\npub broadcast proof fn lit_none(i: int) ensures #[trigger] nothing(i) {}\n%s"
            "pub broadcast group literals { lit_none%s }\n}\n" % ("".join(fns), "".join(", lit%d" % i for i in range(len(fns)))))


class Twin(Source):
    """Methods of an impl of a trait of another crate, which Verus cannot attach contracts to, copied as they stand into
    an inherent impl of the same type."""

    def __init__(self, path, head):
        super().__init__(path, head + "\n")

    def add(self, text):
        p = len(self.text) + re.search(r"\bfn\s", mask(text)).start()
        self.text += text + "\n"
        self.m = mask(self.text)
        self.end = len(self.text)
        return p

    def close_(self):
        self.insert(len(self.text), "}")
        self.done = self.annotated().replace(B, "").replace(E, "")
        return self.done


def twin(twins, s, imp, p, where, name, c):
    h, b, e = imp
    k = (s.path, where)
    if k not in twins:
        x = re.match(r"impl\s*(<(?:[^<>]|<[^<>]*>)*>)?.*?\bfor\s+(?!<)(.*)\Z", s.text[h:b], re.S)
        if not x:
            raise Lost("impl header of " + where)
        twins[k] = Twin(s.path, "#[allow(non_snake_case)]\nimpl%s %s {" % (x.group(1) or "", x.group(2)))
    t = twins[k]
    a = header_start(s, p)
    z = body_of(s.m, p)
    if z is None:
        raise Lost("no body")
    q = t.add("pub " + s.text[a:close(s.m, z)])
    t.insert(re.compile(r"fn\s+").match(t.m, q).end(), where.rpartition(" for ")[0] + "_")
    z = body_of(t.m, q)
    for n, x in enumerate(re.finditer(r"(?<!\w)_(?=\s*:)", t.m[q:z])):
        t.insert(q + x.start(), "unused%d" % n)
    for a, b in c.get("header", []):
        for x in re.finditer(re.escape(a), t.m[q:z]):
            t.insert(q + x.start(), b + " /* ")
            t.insert(q + x.end(), " */")
    return t, q


def build(mod, drop, probe=False):
    """Write the annotated crate to DIR. drop: {function: ("body", reason)} keeps the contract for callers but does not
    look at the body, ("none", reason) leaves the function without a contract. probe: every body starts with a claim
    that must fail, to show that its requirements are not contradictory.
    -> (functions {name: (file, first line, last line)}, lost {name: reason})"""
    t = Tree()
    lost = {}
    p = os.path.join(VERIF, "verus", "loops.json")
    want = json.load(open(p)) if os.path.exists(p) else None
    for typ in mod.TYPES:
        name, opts = (typ, {}) if isinstance(typ, str) else (typ[0], typ[1])
        hits = []
        for s in t.files.values():
            if s.path != opts.get("in", s.path):
                continue
            for x in re.finditer(r"(?m)^[ \t]*((?:pub(?:\([^)]*\))?\s+)?(?:struct|enum)\s+%s\b)" % name, s.m[:s.end]):
                hits.append((s, x.start(1)))
        if len(hits) != 1:
            raise Lost("%d types are called %s" % (len(hits), name))
        s, h = hits[0]
        lead, (b, e) = s.lead(h), (body_of(s.m, h), None)
        ins = []
        if b is None or s.m[h:b].count(";"):
            e = s.m.index(";", h) + 1
            x = s.m.find("(", h, e)
            if x >= 0:
                widen(s, x + 1, close(s.m, x) - 1, ins)
        else:
            e = close(s.m, b)
            if s.m.startswith("struct", h) or re.match(r"pub(?:\([^)]*\))?\s+struct", s.m[h:]):
                widen(s, b + 1, e - 1, ins)
        if not s.m.startswith("pub", h):
            ins.append((h, "pub "))
        s.insert(lead, "vstd::prelude::verus!{\n")
        if opts.get("attr"):
            s.insert(lead, opts["attr"] + "\n")
        for p, x in ins:
            s.insert(p, x)
        s.insert(e, "\n}")

    lits = []
    for path, name in mod.CONSTS:
        s = t.files.get(path)
        x = s and re.search(r"(?m)^(?:pub(?:\([^)]*\))?\s+)?const\s+%s\s*:\s*&(?=str\b)" % name, s.m[:s.end])
        if not x:
            continue
        s.insert(s.lead(x.start()), "vstd::prelude::verus!{\n")
        s.insert(x.end(), "'static ")
        s.insert(s.m.index(";", x.end()) + 1, "\n}")

        lits.append(s.text[x.end():s.m.index(";", x.end())])

    for name in mod.TRAITS:
        for s in t.files.values():
            x = re.search(r"(?m)^(?:pub(?:\([^)]*\))?\s+)?trait\s+%s\b" % name, s.m[:s.end])
            if x:
                s.insert(x.start(), "#[verus_verify]\n")

    for path, name in mod.MODULES:
        s = t.files.get(path)
        x = s and re.search(r"(?m)^mod\s+%s\s*;" % name, s.m[:s.end])
        if x:
            s.insert(x.start(), "pub ")

    used, marks, twins = {}, [], {}
    for c in mod.CONTRACTS:
        key = c["fn"]
        mode, why = drop.get(key, ("full", None))
        if why:
            lost[key] = why
        if mode == "none":
            continue
        where, _, name = key.rpartition("::")
        try:
            s, imp, p = t.find(where, name)
            name = name.partition("#")[0]
            if c.get("twin"):
                s, p = twin(twins, s, imp, p, where, name, c)
                imp = None
            h = header_start(s, p)
            b = body_of(s.m, p)
            if b is None:
                raise Lost("no body")
            e = close(s.m, b)
        except Lost as x:
            lost[key] = "lost anchor: %s" % x
            continue
        if c.get("literals"):
            lits.append(s.text[b:e])
        ins = []
        attrs = "".join(x + "\n" for x in c.get("attrs", []))
        if c.get("trusted") or mode == "body":
            attrs += "#[verus_verify(external_body)]\n"
        else:
            try:
                if any(x[0] == "loop" for x in c["body"]):
                    now = heads(s, b + 1, e - 1)
                    if want is not None and want.get(key) != now:
                        raise Lost("its loops are written differently, the invariants may not fit")
                ins = [(b + 1, "proof! { assert(false); }\n")] if probe else []
                ins += annotate_body(s, b + 1, e - 1, c["body"])
            except Lost as x:
                # keep the contract for the callers, leave this function itself undecided
                lost[key] = "lost anchor: %s" % x
                attrs += "#[verus_verify(external_body)]\n"
        spec = c.get("spec", "")
        s.insert(h, attrs + ("#[verus_spec(%s => %s)]\n" % (c.get("ret", "ret"), spec) if spec else "#[verus_spec]\n"))
        for q, x in ins:
            s.insert(q, x)
        marks.append((key, s, h, e))
        if imp:
            used.setdefault((s.path, imp), set()).add(name)
    for (path, (h, b, e)), names in used.items():
        s = t.files[path]
        s.insert(h, "#[verus_verify]\n")
        for n, p in s.fns(b + 1, e - 1):
            if n not in names:
                s.insert(header_start(s, p), "#[verus_verify(external)]\n")

    after = {}
    for s in twins.values():
        host = t.files[s.path]
        after[s] = host
        host.insert(len(host.text), "\n%s\n" % s.close_())

    for s in t.files.values():
        if s.ins and s.path != "lib.rs":
            x = re.match(r"(?:[ \t]*//!.*\n|[ \t]*\n|[ \t]*#!\[.*\]\s*\n)*", s.text)
            s.ins.insert(0, (x.end(), -1, "#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::verus_spec::*; vstd::prelude::verus!{ broadcast use {crate::verus_spec::facts, crate::verus_spec::literals}; }\n"))
    lib = t.files["lib.rs"]
    x = re.match(r"(?:[ \t]*//!.*\n|[ \t]*\n|[ \t]*#!\[.*\]\s*\n)*", lib.text)
    lib.insert(0, "#![feature(proc_macro_hygiene, const_destruct, pattern)]\n#![allow(unused_imports, unused_braces, duplicate_features)]\n")
    lib.insert(x.end(), "#[allow(missing_docs)] pub mod verus_spec;\n")

    src = os.path.join(DIR, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    funcs = {}
    for s in t.files.values():
        p = os.path.join(src, s.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        text = s.annotated()
        if erase(text) != s.text:
            raise CheckError("annotation is not insertion-only: " + s.path)
        with open(p, "w", encoding="utf8") as f:
            f.write(text)
        for key, ms, h, e in marks:
            if ms is s:
                funcs[key] = ("src/" + s.path, s.line(h), s.line(e))
            elif after.get(ms) is s:
                k = text.index(ms.done)
                n = text.count("\n", 0, k)
                funcs[key] = ("src/" + s.path, n + ms.line(h), n + ms.line(e))
    with open(os.path.join(src, "verus_spec.rs"), "w", encoding="utf8") as f:
        f.write(open(os.path.join(VERIF, "verus", "spec.rs"), encoding="utf8").read() + literals(lits))
    return funcs, lost


def record():
    """Write verus/loops.json: the loops the invariants in contracts.py were written for."""
    t, r = Tree(), {}
    for c in contracts().CONTRACTS:
        if any(x[0] == "loop" for x in c["body"]):
            where, _, name = c["fn"].rpartition("::")
            s, _, p = t.find(where, name)
            b = body_of(s.m, p)
            r[c["fn"]] = heads(s, b + 1, close(s.m, b) - 1)
    with open(os.path.join(VERIF, "verus", "loops.json"), "w") as f:
        json.dump(r, f, indent=1)
        f.write("\n")


# ---------------------------------------------------------------- running

def invoke(timeout, extra=(), rlimit=30):
    cmd = [VERUS, "--crate-type=lib", "--crate-name", "kserd", "--edition=2021", "src/lib.rs"] + externs()
    for f in FEATURES:
        cmd += ["--cfg", 'feature="%s"' % f]
    cmd += ["-A", "warnings", "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit)] + list(extra)
    rc, out, secs = run(cmd, cwd=DIR, timeout=timeout)
    diags, js = [], None
    dec = json.JSONDecoder()
    k = 0
    while True:
        k = out.find("{", k)
        if k < 0:
            break
        try:
            x, n = dec.raw_decode(out[k:])
            k += n
        except ValueError:
            k += 1
            continue
        if isinstance(x, dict) and "verification-results" in x:
            js = x
        elif isinstance(x, dict) and "message" in x and "spans" in x:
            diags.append(x)
    return rc, out, diags, js, secs, cmd


def locate(funcs, d):
    """The contracted functions a diagnostic points into."""
    r = []

    def spans(x):
        for s in x.get("spans", []):
            yield s
            e = s.get("expansion")
            while e:
                yield e["span"]
                e = e["span"].get("expansion")
        for c in x.get("children", []):
            yield from spans(c)

    for s in sorted(spans(d), key=lambda s: not s.get("is_primary")):
        for k, (f, a, b) in funcs.items():
            if s["file_name"] == f and a <= s["line_start"] <= b and k not in r:
                r.append(k)
    return r


FAIL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                  r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied|"
                  r"unable to prove|may be out of bounds|possible bit shift|cannot show|not satisfied|recommendation not met")
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|spun off|canceled")


def errors_of(diags):
    return [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due to")]


def classify(funcs, lost, diags):
    failed, undecided, stray = {}, dict(lost), []
    for d in errors_of(diags):
        w = locate(funcs, d)
        if not w:
            stray.append(d["message"])
        elif LIMIT.search(d["message"]):
            undecided[w[0]] = d["message"][:300]
        else:
            failed.setdefault(w[0], []).append(d.get("rendered") or d["message"])
    return failed, undecided, stray


def accepted(js):
    """Verus got as far as verifying (as opposed to a compile or encoding error)."""
    res = js["verification-results"] if js else {"encountered-error": True}
    return not res.get("encountered-vir-error") and bool(res.get("success") or res.get("errors", 0) > 0)


def decide(mod, timeout):
    """Verify the current source. -> dict(functions, failed {fn: [messages]}, undecided {fn: why}, ...)"""
    t0 = time.time()
    os.makedirs(DIR, exist_ok=True)
    drop, log = {}, []
    while True:
        left = timeout - (time.time() - t0)
        if left < 20 or len(log) > 16:
            raise Lost("no annotated crate that Verus accepts within the time limit: " + "; ".join(log)[-1500:])
        funcs, lost = build(mod, drop)
        rc, out, diags, js, secs, cmd = invoke(left)
        if rc is None:
            raise Lost("Verus did not finish")
        if accepted(js):
            break
        # a compile or encoding error: leave out the function it is in and try again
        hit = None
        errs = errors_of(diags)
        for d in errs:
            w = locate(funcs, d)
            if w:
                hit = (w[0], "not accepted by Verus: " + d["message"][:300])
                break
        if not hit:
            raise Lost("Verus rejects the annotated crate: " + ("; ".join(d["message"] for d in errs)[:1500] or out[-1500:]))
        log.append("%s: %s" % hit)
        drop[hit[0]] = ("none" if hit[0] in drop else "body", hit[1])
    failed, undecided, stray = classify(funcs, lost, diags)
    left = timeout - (time.time() - t0)
    if failed and left > 60:
        # an obligation counts as failed only if another search also fails
        rc2, out2, diags2, js2, secs2, cmd2 = invoke(left, ["-V", "spinoff-all"], rlimit=90)
        if rc2 is not None and accepted(js2):
            f2, u2, _ = classify(funcs, lost, diags2)
            for k in list(failed):
                if k in u2 and k not in f2:
                    undecided[k] = u2[k]
                    del failed[k]
                elif k not in f2:
                    del failed[k]
            secs += secs2
    return {"functions": funcs, "failed": failed, "undecided": undecided, "stray": stray, "json": js, "out": out,
            "cmd": " ".join(cmd), "secs": secs, "drop": drop, "diags": diags}


def vacuity(mod, drop, timeout):
    """-> functions whose impossible claim was not refuted (their requirements may be contradictory)"""
    funcs, lost = build(mod, drop, probe=True)
    rc, out, diags, js, secs, cmd = invoke(timeout)
    if rc is None or not accepted(js):
        return None
    hit = set()
    for d in errors_of(diags):
        if "assertion failed" in d["message"] or LIMIT.search(d["message"]):
            hit.update(locate(funcs, d)[:1])
    skip = {c["fn"] for c in mod.CONTRACTS if c.get("trusted")} | set(lost)
    return sorted(k for k in funcs if k not in hit and k not in skip)


def unchecked():
    """Everything the annotated crate asks Verus to take on trust, found by scanning it."""
    r = []
    for base, _, files in os.walk(os.path.join(DIR, "src")):
        for f in files:
            text = open(os.path.join(base, f), encoding="utf8").read()
            rel = os.path.relpath(os.path.join(base, f), os.path.join(DIR, "src"))
            for m in re.finditer(r"assume_specification.*?\[\s*(.*?)\s*\]\s*\(", text):
                r.append("assumed contract of std's " + m.group(1))
            for m in re.finditer(r"\bexternal_body\b[^;{]*?\bfn\s+(\w+)", text, re.S):
                r.append("contract of %s (%s) assumed, body not verified" % (m.group(1), rel))
            for m in re.finditer(r"\baxiom fn (\w+)", text):
                r.append("axiom %s (%s)" % (m.group(1), rel))
            for m in re.finditer(r"\b(admit|assume)\s*\(", text):
                r.append("%s in %s" % (m.group(1), rel))
            for m in re.finditer(r"exec_allows_no_decreases_clause\b.*?\bfn\s+(\w+)", text, re.S):
                r.append("termination of %s (%s) not proved" % (m.group(1), rel))
    return sorted(set(r))


EXTRACTION = ("The whole crate under /repo/src is copied and contracts are inserted; erasing the marked insertions gives every file "
              "back byte for byte (checked on every run). Beyond contracts, loop invariants and proof blocks the insertions are: "
              "type annotations on closures and locals, `pub` on private fields, types and modules, `use` lines, `verus!{}` around "
              "type definitions and constants. Methods of serde's traits, to which Verus attaches no contracts, are copied as they "
              "stand, on every run, into an inherent impl of the same type at the end of the file (name prefixed with the trait's, "
              "`_` parameters named, associated types of the trait written out) and verified there; calls between them are read as "
              "calls between the copies. Where Verus lacks a construct an equivalent one is read instead, the original text kept in "
              "a comment: closure parameters that are patterns bound by a `let`, an arm `P | Q => e` as two arms, an enum "
              "constructor used as a function as a closure, structs defined inside a function as structs at the end of the file, a "
              "debug_assert! as nothing, and calls of library methods without contracts (any, map, filter_map, "
              "collect, extend, sort_by_key, cmp, ==, clone, serialize, deserialize, visit_*, BTreeMap::new, insert, HashMap::entry, "
              "chain, cloned, iteration of a map, collect and extend of a VecDeque, serde's value deserializers, Box::new of an array, format! in error text) made through wrappers in "
              "verus/spec.rs that call the same method and carry an assumed contract. Functions without a contract are external to "
              "Verus. Test modules are not compiled.")


def verify(prop, cfg, timeout):
    mod = contracts()
    mine = [c["fn"] for c in mod.CONTRACTS if prop in c["props"] and not c.get("trusted")]
    deps = [c["fn"] for c in mod.CONTRACTS if c["fn"] not in mine and not c.get("trusted")
            and (set(c["props"]) & set(cfg.get("deps", [])))]
    r = {"obligations": [], "undecided": [], "out": "", "solver_s": 0.0, "cmd": VERUS, "trusted": [], "assumptions": [],
         "extraction": EXTRACTION, "lemmas": 0}
    t0 = time.time()
    try:
        prepare()
        d = decide(mod, timeout - 30)
    except Lost as e:
        r["undecided"].append(str(e))
        return r
    smt = d["json"]["times-ms"]["smt"]
    r["solver_s"] = round(smt["total"] / 1000.0, 2)
    r["cmd"] = "cd %s && %s" % (DIR, d["cmd"])
    done = [f for m in smt["smt-run-module-times"] for f in m.get("function-breakdown", [])]
    r["lemmas"] = len({f["function"] for f in done if "::verus_spec::" in f["function"]})
    for n in mine + deps:
        if n in d["failed"]:
            st = "failed" if n in mine else "undecided"
            if n in deps:
                r["undecided"].append("%s, which this property's obligations rely on, fails its contract" % n)
        elif n in d["undecided"] or n not in d["functions"]:
            st = "undecided"
            r["undecided"].append("%s: %s" % (n, d["undecided"].get(n, "not found")))
        else:
            st = "ok"
        r["obligations"].append({"name": n, "status": st})
    r["undecided"] += ["outside contracted functions: " + x for x in d["stray"]]
    r["out"] = "\n".join(x for n in mine for x in d["failed"].get(n, []))
    left = timeout - (time.time() - t0)
    if not r["out"]:
        v = vacuity(mod, d["drop"], max(20, left))
        if v is None:
            r["undecided"].append("vacuity probe did not run")
        else:
            r["undecided"] += ["%s: vacuous, an impossible claim was accepted" % n for n in v if n in mine + deps]
    r["trusted"] = unchecked()
    return r
