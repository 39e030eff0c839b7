"""Loading of clang's JSON AST for a verification unit, and C++ type parsing."""
import json, os, re, subprocess, hashlib, tempfile, pickle

CLANG = "/usr/bin/clang++-18"


class ExtractError(Exception):
    """The code uses a construct the extraction does not cover."""


def make_cfg(repo, dest, backend="default"):
    d = os.path.join(dest, "cfg_" + backend, "firefly")
    os.makedirs(d, exist_ok=True)
    s = open(os.path.join(repo, "source/include/firefly/config.hpp.in")).read()
    s = s.replace("@DEFAULT_FLAG@", "1" if backend == "default" else "0")
    s = s.replace("@FLINT_FLAG@", "1" if backend == "flint" else "0")
    s = s.replace("@CUSTOM_FLAG@", "0").replace("@MPI_FLAG@", "0")
    open(os.path.join(d, "config.hpp"), "w").write(s)
    return os.path.dirname(d)


def _docs(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] in " \n":
            i += 1
        if i >= n:
            break
        if s[i] != "{":
            i = s.index("\n", i)
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


class Unit:
    """One translation unit: decl index and function lookup."""

    def __init__(self, repo, tu, cfgdir, filt="firefly", backend="default"):
        cfg = make_cfg(repo, cfgdir, backend)
        cmd = [CLANG, "-std=c++14", "-fsyntax-only", "-w", "-I" + cfg, "-I" + repo + "/source/include",
               "-I" + repo + "/source", "-I/usr/include/flint", "-Xclang", "-ast-dump=json",
               "-Xclang", "-ast-dump-filter=" + filt, tu]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ExtractError("clang failed on %s:\n%s" % (tu, r.stderr.decode()[-2000:]))
        self.docs = _docs(r.stdout.decode())
        self.cmd = " ".join(cmd)
        self.decl = {}
        self.parent = {}
        self.qual = {}
        self.funcs = {}
        self.records = {}
        self.vars = {}
        for d in self.docs:
            self._index(d, None, "")
        self._collect()

    def _index(self, n, parent, q):
        k = n.get("kind")
        if k is None:
            return
        if "inner" in n:
            n["inner"] = [c for c in n["inner"] if not (c.get("kind") or "").endswith("Comment")]
        if "id" in n and k.endswith("Decl"):
            if n["id"] not in self.decl or n.get("inner"):
                self.decl[n["id"]] = n
            if parent is not None:
                self.parent[n["id"]] = parent
        name = n.get("name")
        q2 = q
        if k in ("NamespaceDecl",):
            q2 = q if name in (None, "firefly") else (q + name + "::")
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            q2 = q + (name or "anon") + "::"
        if k.endswith("Decl"):
            self.qual[n["id"]] = q + (name or "")
        for c in n.get("inner", []):
            self._index(c, n if k.endswith("Decl") else parent, q2)

    def ispattern(self, n):
        """Uninstantiated template (its body refers to template parameters)."""
        p = self.parent.get(n["id"])
        if p is not None and p["kind"] == "FunctionTemplateDecl":
            fs = [c for c in p.get("inner", []) if c.get("kind") == n["kind"]]
            if fs and fs[0]["id"] == n["id"]:
                return True
        o = self.owner(n)
        if o is not None and o["kind"] == "CXXRecordDecl":
            p = self.parent.get(o["id"])
            return p is not None and p["kind"] == "ClassTemplateDecl"
        return False

    def _collect(self):
        later = []
        for i, n in self.decl.items():
            if n["kind"] in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl") and self.ispattern(n):
                later.append((i, n))
        ids = {i for i, _ in later}
        for i, n in [x for x in self.decl.items() if x[0] not in ids] + later:
            k = n["kind"]
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("completeDefinition"):
                self.records.setdefault(n.get("name"), []).append(n)
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
                body = [c for c in n.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt")]
                if not body:
                    continue
                self.funcs.setdefault(self.fkey(n), n)

    # -- names -----------------------------------------------------------
    def owner(self, n):
        """Name of the class a method belongs to (through parentDeclContextId for out-of-line)."""
        pid = n.get("parentDeclContextId")
        if pid and pid in self.decl and self.decl[pid]["kind"] in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            return self.decl[pid]
        p = self.parent.get(n["id"])
        while p is not None and p["kind"] == "FunctionTemplateDecl":
            p = self.parent.get(p["id"])
        if p is not None and p["kind"] in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            return p
        if "previousDecl" in n and n["previousDecl"] in self.decl:
            return self.owner(self.decl[n["previousDecl"]])
        return None

    def fkey(self, n):
        o = self.owner(n)
        pre = ""
        if o is not None:
            pre = o.get("name", "anon") + "::"
        name = n["name"]
        ps = [short_ty(self.ptype(c)) for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        return pre + name + "(" + ",".join(ps) + ")"

    def ptype(self, n):
        t = n.get("type", {})
        return t.get("desugaredQualType", t.get("qualType", ""))

    def canon(self, n):
        """Definition (with body) for a decl id, if any."""
        return self.funcs.get(self.fkey(n))


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "name", "ref", "const")

    def __init__(self, k, a=(), name=None, ref=False, const=False):
        self.k, self.a, self.name, self.ref, self.const = k, tuple(a), name, ref, const

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a and self.name == o.name

    def __hash__(self):
        return hash((self.k, self.a, self.name))

    def __repr__(self):
        return self.k + (":" + self.name if self.name else "") + ("<%s>" % ",".join(map(repr, self.a)) if self.a else "")


INTS = {
    "unsigned long": "u64", "unsigned long long": "u64", "uint64_t": "u64", "std::uint64_t": "u64", "size_t": "u64",
    "std::size_t": "u64", "mp_limb_t": "u64", "ulong": "u64",
    "long": "i64", "long long": "i64", "int64_t": "i64", "std::int64_t": "i64", "ptrdiff_t": "i64", "difference_type": "i64",
    "unsigned int": "u32", "uint32_t": "u32", "std::uint32_t": "u32", "unsigned": "u32",
    "int": "i32", "int32_t": "i32", "short": "i16", "unsigned short": "u16", "char": "i8", "signed char": "i8",
    "unsigned char": "u8", "uint8_t": "u8", "int8_t": "i8",
    "__int128": "i128", "unsigned __int128": "u128",
}
RANGE = {}
for _w in (8, 16, 32, 64, 128):
    RANGE["u%d" % _w] = (0, 2 ** _w - 1)
    RANGE["i%d" % _w] = (-2 ** (_w - 1), 2 ** (_w - 1) - 1)


def _split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tycache = {}


def parse_ty(s):
    if s in _tycache:
        return _tycache[s]
    t = _parse_ty(s)
    _tycache[s] = t
    return t


def _parse_ty(s0):
    s = s0.strip()
    ref = const = False
    if s.endswith("&&"):
        s = s[:-2].strip()
        ref = True
    elif s.endswith("&"):
        s = s[:-1].strip()
        ref = True
    if s.endswith("*") or s.endswith("*const"):
        inner = s[:-1] if s.endswith("*") else s[:-6]
        return Ty("ptr", [parse_ty(inner)], ref=ref)
    ch = True
    while ch:
        ch = False
        for w in ("const ", "class ", "struct ", "volatile ", "enum ", "typename "):
            if s.startswith(w):
                s = s[len(w):].strip()
                ch = True
                if w == "const ":
                    const = True
        if s.endswith(" const"):
            s = s[:-6].strip()
            const = True
            ch = True
    s = s.replace("firefly::", "").replace("std::__cxx11::", "std::").replace("(anonymous namespace)::", "")
    if s in INTS:
        return Ty(INTS[s], ref=ref, const=const)
    m = re.match(r"^(.*\w)\s*\[(\d+)\]$", s)
    if m and not s.startswith("__mpz_struct"):
        return Ty("arr", [parse_ty(m.group(1)), Ty("lit", name=m.group(2))], ref=ref, const=const)
    if s == "bool" or s == "_Bool":
        return Ty("bool", ref=ref, const=const)
    if s == "void":
        return Ty("void")
    if s in ("long double", "double", "float"):
        return Ty({"long double": "ld", "double": "dbl", "float": "flt"}[s], ref=ref, const=const)
    if s in ("mpz_class", "mpz_t", "__mpz_struct", "mpz_ptr", "mpz_srcptr") or s.startswith("__gmp_expr<") or s.startswith("__mpz_struct["):
        return Ty("mpz", ref=ref, const=const)
    if s in ("std::string", "std::basic_string<char>", "string", "basic_string<char>") or s.startswith("std::basic_string<char"):
        return Ty("str", ref=ref, const=const)
    if s == "monomial_type" or s == "ff_pair":
        pass
    m = re.match(r"^([\w:]+?)<(.*)>$", s, re.S)
    if m:
        base = m.group(1)
        args = _split_args(m.group(2))
        b = base.split("::")[-1]
        if b == "mat_ff":
            return Ty("vec", [Ty("vec", [parse_ty(args[0])])], ref=ref, const=const)
        if b == "vector":
            return Ty("vec", [parse_ty(args[0])], ref=ref, const=const)
        if b == "array":
            return Ty("arr", [parse_ty(args[0]), Ty("lit", name=args[1])], ref=ref, const=const)
        if b == "pair":
            return Ty("pair", [parse_ty(args[0]), parse_ty(args[1])], ref=ref, const=const)
        if b in ("unordered_map", "map"):
            return Ty("map", [parse_ty(args[0]), parse_ty(args[1])], ref=ref, const=const)
        if b in ("unordered_set", "set"):
            return Ty("set", [parse_ty(args[0])], ref=ref, const=const)
        if b == "stack":
            return Ty("vec", [parse_ty(args[0])], ref=ref, const=const)
        if b in ("queue", "list", "deque"):
            return Ty(b, [parse_ty(args[0])], ref=ref, const=const)
        if b == "initializer_list":
            return Ty("vec", [parse_ty(args[0])], ref=ref, const=const)
        if b == "numeric_limits":
            return Ty("other", name=s, ref=ref, const=const)
        return Ty("obj", [parse_ty(x) if not re.match(r"^\d+$", x) else Ty("lit", name=x) for x in args], name=b, ref=ref, const=const)
    if s == "ff_map":
        return Ty("map", [Ty("vec", [Ty("u32")]), Ty("obj", name="FFInt")], ref=ref, const=const)
    if s == "rn_map":
        return Ty("map", [Ty("vec", [Ty("u32")]), Ty("obj", name="RationalNumber")], ref=ref, const=const)
    if re.match(r"^[A-Za-z_]\w*$", s):
        return Ty("obj", name=s, ref=ref, const=const)
    return Ty("other", name=s, ref=ref, const=const)


def short_ty(s):
    t = parse_ty(s)

    def f(t):
        if t.k == "obj":
            return t.name + ("<%s>" % ",".join(map(f, t.a)) if t.a else "")
        if t.k == "lit":
            return t.name
        if t.k == "other":
            return t.name
        if t.a:
            return t.k + "<" + ",".join(map(f, t.a)) + ">"
        return t.k
    return f(t)
