"""Mechanical translation of C++ function bodies (clang JSON AST) to WhyML.

Every C++ object is a WhyML reference holding an immutable value; references
and iterators into containers are tracked as access paths; machine arithmetic
is kept (wrap-around for unsigned, an overflow obligation for signed, index
obligations for containers).  Nothing of a function body is skipped silently:
an unsupported construct raises ExtractError; the few statements that are
dropped (logging, reserve, mpz_init/clear, ...) are listed in `dropped`.
"""
import re
from cxxast import *

KEYWORDS = set("""abstract absurd alias any as assert assume at axiom break by check clone coinductive constant
continue diverges do done downto else end ensures epsilon exception exists export false float for forall fun function
ghost goal if import in inductive invariant label lemma let match meta module mutable namespace not old opaque partial
predicate private pure raise raises range reads rec ref requires return returns scope so then theory to true try type use
val variant while with writes result this p""".split()) - {"this", "p"}

OPN = {"+": "plus", "-": "minus", "*": "times", "/": "div", "%": "mod", "==": "eq", "!=": "ne", "<": "lt", "<=": "le",
       ">": "gt", ">=": "ge", "+=": "pluseq", "-=": "minuseq", "*=": "timeseq", "/=": "diveq", "=": "assign", "!": "not",
       "++": "incr", "--": "decr", "<<": "shl", ">>": "shr", "()": "call", "[]": "index", "%=": "modeq", "^": "xor", "&": "and", "|": "or"}


def mangle(key):
    name, args = key.split("(", 1)
    parts = name.split("::")
    last = parts[-1]
    if last.startswith("operator"):
        last = "op_" + OPN.get(last[8:].strip(), "x")
    parts[-1] = last
    s = "_".join(parts) + "__" + args[:-1]
    s = re.sub(r"[^A-Za-z0-9_]", "_", s).strip("_")
    return "f_" + s


class Loop:
    def __init__(self, inv=(), variant=None, before="", begin="", end="", after="", noauto=False, sp=False, leaf=""):
        self.leaf = leaf  # proof hint at the end of every branch of the body (ghost: assertions only)
        self.sp = sp  # strongest postconditions for the body: one formula instead of one per path
        self.inv = [inv] if isinstance(inv, str) else list(inv)
        self.variant, self.before, self.begin, self.end, self.after = variant, before, begin, end, after


class FSpec:
    """Contract of one C++ function."""

    def __init__(self, key, params=(), requires=(), ensures=(), throws=None, writes=(), reads=(), loops=None, entry="",
                 exit="", use=(), decls="", variant=None, verify=True, alias=None, trusted=None, locals=None, ff="conc",
                 unit=None, inline=(), pure=None, opts=None, name=None, lets=None, rettype=None, defaults=None, note="",
                 prove_opts=None, nores=False, parttype=None, diverges=False, keyalt=()):
        L = lambda x: [x] if isinstance(x, str) else list(x)
        self.key, self.params, self.requires, self.ensures = key, L(params), L(requires), L(ensures)
        self.throws, self.writes, self.reads, self.loops = throws, L(writes), L(reads), loops or {}
        self.entry, self.exit, self.use, self.decls, self.variant = entry, exit, L(use), decls, variant
        self.verify, self.alias, self.trusted = verify, alias, trusted
        self.ff, self.unit, self.inline, self.pure = ff, unit, L(inline), pure
        self.opts = opts or {}
        self.name = name
        self.note = note
        self.diverges = diverges
        self.prove_opts = prove_opts or {}
        self.keyalt = L(keyalt)

    @property
    def mangled(self):
        return mangle(self.key)


class Path:
    """An lvalue: base program variable plus accessors."""

    def __init__(self, base, acc=(), ty=None, immut=False):
        self.base, self.acc, self.ty, self.immut = base, tuple(acc), ty, immut


class IterVal:
    """Iterator into a map: found flag + key + the path of the map."""

    def __init__(self, path, found, key):
        self.path, self.found, self.key = path, found, key


class Inl(Exception):
    pass


class Translator:
    def __init__(self, unit, specs, types, ff="conc", opts=None):
        self.u = unit
        self.specs = specs            # key -> FSpec
        self.types = types            # type layer options
        self.ff = ff
        self.opts = opts or {}
        self.dropped = []
        self.inlined = []
        self.records = {}             # name -> [(field, Ty)]
        self.globals = {}             # why name -> Ty
        self.used = []                # callee specs used
        self.tmp = 0
        self.loopno = 0
        self.modstack = []
        self.inl_depth = 0
        self.rename_locals = {}
        self.local_log = []
        self.assumptions = set()

    # ------------------------------------------------------------ types
    def wty(self, t):
        if t.k in RANGE:
            return "int"
        if t.k in ("bool",):
            return "bool"
        if t.k == "dbl":
            return "dbl"
        if t.k in ("ld", "flt"):
            return "real"
        if t.k == "mpz":
            return "int"
        if t.k == "str":
            return "sstr" if self.opts.get("strseq") else "cstr"
        if t.k in ("vec", "arr", "queue", "list", "deque"):
            return "(seq %s)" % self.wty(t.a[0])
        if t.k == "pair":
            return "(pair %s %s)" % (self.wty(t.a[0]), self.wty(t.a[1]))
        if t.k == "map":
            return "(fmap %s %s)" % (self.wty(t.a[0]), self.wty(t.a[1]))
        if t.k == "void":
            return "unit"
        if t.k == "obj":
            if t.name == "FFInt" and self.ff == "abs":
                return "ff"
            am = self.opts.get("abstype", {})
            if t.name in am:
                return am[t.name]
            self.record(t)
            return t.name.lower()
        raise ExtractError("type not supported: %r" % (t,))

    def record(self, t):
        if t.name in self.records:
            return self.records[t.name]
        cands = self.u.records.get(t.name)
        if not cands:
            raise ExtractError("no definition for class %s" % t.name)
        rec = cands[-1] if t.a else cands[0]
        if rec["kind"] == "CXXRecordDecl" and t.a:
            for c in cands:
                if c["kind"] == "ClassTemplateSpecializationDecl":
                    rec = c
        self.records[t.name] = fields = []
        only = self.opts.get("fields", {}).get(t.name)
        for c in rec.get("inner", []):
            if c.get("kind") == "FieldDecl":
                if only is not None and c["name"] not in only:
                    continue
                fields.append((c["name"], parse_ty(self.u.ptype(c))))
        # members of the (plain) base classes that the specification names
        for b in rec.get("bases", []) if only is not None else []:
            for c in (self.u.records.get(b["type"]["qualType"].split("::")[-1]) or [{}])[0].get("inner", []):
                if c.get("kind") == "FieldDecl" and c["name"] in only and c["name"] not in [f for f, _ in fields]:
                    fields.append((c["name"], parse_ty(self.u.ptype(c))))
        for f, ft in fields:
            self.wty(ft)
        return fields

    def fieldname(self, t, f):
        return "%s_%s" % (t.name.lower(), f)

    def wt(self, t, x):
        """Well-typedness facts (every C++ object of this type satisfies them)."""
        if t.k in RANGE:
            return ["in_%s %s" % (t.k, x)]
        if t.k in ("vec", "list", "queue", "deque"):
            out = ["vec_ok %s" % x]
            e = self.wt(t.a[0], "%s[wt_i]" % x)
            if e and t.a[0].k != "vec" or (t.a[0].k == "vec"):
                if e:
                    out.append("(forall wt_i. 0 <= wt_i < length %s -> %s)" % (x, " /\\ ".join(e)) if t.a[0].k != "vec" else
                               "(forall wt_j. 0 <= wt_j < length %s -> %s)" % (x, " /\\ ".join(self.wt(t.a[0], "%s[wt_j]" % x))))
            return out
        if t.k == "arr":
            n = self.arrlen(t)
            out = ["length %s = %s" % (x, n)]
            e = self.wt(t.a[0], "%s[wt_i]" % x)
            if e:
                out.append("(forall wt_i. 0 <= wt_i < length %s -> %s)" % (x, " /\\ ".join(e)))
            return out
        if t.k == "pair":
            return self.wt(t.a[0], x + ".first") + self.wt(t.a[1], x + ".second")
        if t.k == "map" and t.a[0].k == "vec" and t.a[0].a[0].k == "u32":
            return ["map_ok %s" % x]
        if t.k == "obj":
            if (t.name == "FFInt" and self.ff == "abs") or t.name in self.opts.get("abstype", {}):
                return []
            out = []
            for f, ft in self.record(t):
                out += self.wt(ft, "%s.%s" % (x, self.fieldname(t, f)))
            return out
        return []

    def arrlen(self, t):
        m = self.opts.get("arrlen")
        return m if m else t.a[1].name

    # ------------------------------------------------------------ output
    def emit(self, s):
        self.out.append(s)

    def fresh(self, pre="t"):
        self.tmp += 1
        return "%s'%d" % (pre, self.tmp) if False else "%s_%d" % (pre, self.tmp)

    def block(self, fn):
        """Run fn with a fresh statement list, return the list."""
        old = self.out
        self.out = []
        try:
            fn()
            return self.out
        finally:
            self.out = old

    def bind(self, code, pre="t"):
        if re.match(r"^[\w.]+$", code) and (code.split(".")[0] not in self.mutvars):
            return code
        t = self.fresh(pre)
        self.emit("let %s = %s in" % (t, code))
        return t

    # ------------------------------------------------------------ helpers
    def ty(self, n):
        t = n.get("type", {})
        return parse_ty(t.get("desugaredQualType", t.get("qualType", "")))

    def unsup(self, what, n=None):
        raise ExtractError("unsupported: %s%s" % (what, (" (" + n.get("kind", "") + ")") if n else ""))

    def strip(self, n):
        while n["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr",
                            "FullExpr") or (n["kind"] == "SubstNonTypeTemplateParmExpr" and not self.opts.get("arrlen")) or (
                n["kind"] == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "FunctionToPointerDecay", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion")):
            inner = [c for c in n.get("inner", []) if c.get("kind")]
            if n["kind"] == "SubstNonTypeTemplateParmExpr":
                inner = [c for c in inner if not c["kind"].endswith("Decl")]
            n = inner[-1]
        return n

    def whyname(self, s):
        if s in KEYWORDS:
            s = s + "_"
        if s[0].isupper() or s[0] == "_":
            s = "v_" + s
        return s

    def has_effect(self, n):
        k = n.get("kind")
        if k is None:
            return False
        if k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") in ("=", ",")):
            return True
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            return True
        if k == "CXXOperatorCallExpr":
            cal = self.callee(n)
            nm = (cal or {}).get("name", "")
            if nm in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator++", "operator--", "operator%="):
                return True
        if k in ("CallExpr", "CXXMemberCallExpr", "LambdaExpr", "CXXThrowExpr"):
            return True
        return any(self.has_effect(c) for c in n.get("inner", []))

    # ------------------------------------------------------------ lvalues
    def lv(self, n):
        n = self.strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            return self.declref(n)
        if k == "CXXThisExpr":
            return self.this_path()
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "*":
                c = self.strip(n["inner"][0])
                while c["kind"] == "ImplicitCastExpr":
                    c = self.strip(c["inner"][0])
                if c["kind"] == "CXXThisExpr":
                    return self.this_path()
                if c["kind"] == "DeclRefExpr" and self.env.get(c["referencedDecl"]["id"], (None,))[0] == "ptr":
                    return self.env[c["referencedDecl"]["id"]][1]
                iv = self.iter_of(c)
                if iv is not None:
                    return self.iter_member(iv, None)
                self.unsup("dereference", c)
            if op in ("++", "--") and not n.get("isPostfix"):
                p = self.lv(n["inner"][0])
                self.incdec(p, op)
                return p
        if k == "MemberExpr":
            base = n["inner"][0]
            name = n["name"]
            b = self.strip(base)
            # iterator deref: it->second
            iv = self.iter_of(b)
            if iv is not None:
                return self.iter_member(iv, name)
            if n.get("isArrow"):
                c = b
                while c["kind"] == "ImplicitCastExpr":
                    c = self.strip(c["inner"][0])
                if c["kind"] == "CXXThisExpr":
                    p = self.this_path()
                else:
                    self.unsup("arrow", c)
            else:
                # static member through object?
                d = self.u.decl.get(n.get("referencedMemberDecl", ""))
                if d is not None and d["kind"] == "VarDecl":
                    return self.globalvar(d)
                p = self.lvx(base)
            return self.member(p, name)
        if k == "ArraySubscriptExpr":
            iv = self.iter_of(self.strip(n["inner"][0]))
            if iv is not None and iv.found == "vec":
                i, _ = self.ex(n["inner"][1])
                return self.index(iv.path, self.bind("(%s + %s)" % (iv.key, i)))
            p = self.lv(n["inner"][0])
            i, _ = self.ex(n["inner"][1])
            return self.index(p, self.bind(i))
        if k == "ImplicitCastExpr" and n.get("castKind") in ("ArrayToPointerDecay", "LValueToRValue"):
            return self.lv(n["inner"][0])
        if k == "CXXOperatorCallExpr":
            cal = self.callee(n)
            nm = cal["name"]
            args = n["inner"][1:]
            if nm == "operator[]":
                p = self.lvx(args[0])
                if p.ty.k == "map":
                    return self.map_index(p, args[1])
                i, _ = self.ex(args[1])
                return self.index(p, self.bind(i))
            if nm == "operator*" and len(args) == 1:
                iv = self.iter_of(self.strip(args[0]))
                if iv is not None:
                    return self.iter_member(iv, None)
            # compound assignment returning *this
            if nm in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator%=", "operator++", "operator--") and "&" in n.get("type", {}).get("qualType", "&") or n.get("valueCategory") == "lvalue":
                return self.opassign(n)
        if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and n["opcode"] == "="):
            return self.assign(n)
        if k == "CXXMemberCallExpr":
            r = self.member_lv(n)
            if r is not None:
                return r
        if k == "ConditionalOperator":
            self.unsup("conditional lvalue", n)
        self.unsup("lvalue", n)

    def lvx(self, n):
        """Lvalue, or a temporary holding the rvalue."""
        s = self.strip(n)
        if n.get("valueCategory") == "lvalue" or s.get("valueCategory") in ("lvalue",):
            try:
                save = list(self.out)
                return self.lv(s)
            except ExtractError:
                self.out[:] = save
        if s["kind"] == "MemberExpr" and not s.get("isArrow"):
            p = self.lvx(s["inner"][0])
            return self.member(p, s["name"])
        c, t = self.ex(s)
        v = self.bind(c)
        return Path(v, (), t, immut=True)

    def member(self, p, name):
        t = p.ty
        if t.k == "pair":
            return Path(p.base, p.acc + (("f", name),), t.a[0] if name == "first" else t.a[1], p.immut)
        if t.k == "obj" and t.name == "FFInt" and name == "n" and self.ff == "abs":
            return Path("(fto %s)" % self.read(p), (), Ty("u64"), True)
        if t.k == "obj":
            for f, ft in self.record(t):
                if f == name:
                    return Path(p.base, p.acc + (("f", self.fieldname(t, f)),), ft, p.immut)
        self.unsup("member %s of %r" % (name, t))

    def index(self, p, i):
        if p.ty.k not in ("vec", "arr", "str", "deque"):
            self.unsup("index into %r" % (p.ty,))
        et = p.ty.a[0] if p.ty.a else Ty("i8")
        if p.ty.k == "str" and self.opts.get("strseq"):
            return Path("(s_get %s %s)" % (self.read(p), i), (), et, True)
        return Path(p.base, p.acc + (("i", i),), et, p.immut)

    def map_index(self, p, argn):
        kc, _ = self.ex(argn)
        kv = self.bind(kc, "k")
        vt = p.ty.a[1]
        # operator[] inserts a default element
        if not p.immut:
            rd = self.read(p)
            self.write(p, "(if fmem %s %s then %s else fadd_ %s %s %s)" % (kv, rd, rd, kv, self.default(vt), rd))
        return Path(p.base, p.acc + (("k", kv),), vt, p.immut)

    def read(self, p):
        c = p.base
        for kind, a in p.acc:
            if kind == "f":
                c = "%s.%s" % (c, a) if re.match(r"^[\w.]+$", c) else "(%s).%s" % (c, a)
            elif kind == "i":
                c = "(vget %s %s)" % (c, a)
            elif kind == "k":
                c = "(mget %s %s)" % (c, a)
        return c

    def write(self, p, val):
        if p.immut:
            self.unsup("write to immutable %s" % p.base)
        for m in self.modstack:
            m.add(p.base)
        self.emit("%s <- %s;" % (p.base, self._upd(p.base, list(p.acc), val)))

    def _upd(self, cur, acc, val):
        if not acc:
            return val
        kind, a = acc[0]
        if kind == "f":
            sub = "(%s).%s" % (cur, a)
            return "{ (%s) with %s = %s }" % (cur, a, self._upd(sub, acc[1:], val)) if not re.match(r"^\w+$", cur) else \
                "{ %s with %s = %s }" % (cur, a, self._upd("%s.%s" % (cur, a), acc[1:], val))
        if kind == "i":
            return "(vset %s %s %s)" % (cur if re.match(r"^\w+$", cur) else "(%s)" % cur, a, self._upd("(vget (%s) %s)" % (cur, a), acc[1:], val))
        if kind == "k":
            return "(fadd_ %s %s (%s))" % (a, self._upd("(mget (%s) %s)" % (cur, a), acc[1:], val), cur)
        raise AssertionError

    def this_path(self):
        e = self.env.get("this")
        if e is None:
            self.unsup("this")
        return e[1]

    def declref(self, n):
        d = n["referencedDecl"]
        e = self.env.get(d["id"])
        if e is not None:
            if e[0] in ("path", "ptr"):
                return e[1]
            if e[0] == "iter":
                if e[1].found == "true" and e[1].path.ty.k == "map":     # element of a range-for over a map
                    q = self.iter_member(e[1], None)
                    return Path(self.bind(q.base, "el"), (), q.ty, True)
                self.unsup("iterator as value")
        full = self.u.decl.get(d["id"])
        if full is not None and full["kind"] in ("VarDecl",):
            return self.globalvar(full)
        self.unsup("reference to %s" % d.get("name"))

    def globalvar(self, d):
        q = self.u.qual.get(d["id"], d["name"])
        o = self.u.owner(d)
        if o is not None:
            q = o["name"] + "::" + d["name"]
        w = self.whyname(re.sub(r"\W+", "_", q).lower())
        t = parse_ty(self.u.ptype(d))
        if t.const and (t.k in RANGE or t.k == "bool"):
            c = self.constvalue(d)
            if c is not None:
                return Path(c, (), t, True)
        self.globals[w] = t
        if self.ff == "abs" and w == "ffint_p":
            pass
        return Path(w, (), t)

    def constvalue(self, d):
        """Value of a constant with a literal initialiser (possibly in its out-of-class definition)."""
        for x in [d] + [x for x in self.u.decl.values() if x["kind"] == "VarDecl" and x.get("previousDecl") == d["id"]]:
            for c in x.get("inner", []):
                if c.get("kind") in ("IntegerLiteral", "ImplicitCastExpr", "CXXBoolLiteralExpr", "ConstantExpr", "ParenExpr"):
                    try:
                        c2, t2 = self.ex(c)
                        return self.coerce(c2, t2, parse_ty(self.u.ptype(d)))
                    except (ExtractError, KeyError):
                        return None
        return None

    # ------------------------------------------------------------ iterators
    def iter_of(self, n):
        while n["kind"] in ("ImplicitCastExpr",) or (n["kind"] == "CXXOperatorCallExpr" and self.callee(n)["name"] == "operator->"):
            n = self.strip(n["inner"][-1] if n["kind"] == "CXXOperatorCallExpr" else n["inner"][0])
        if n["kind"] == "CXXOperatorCallExpr" and self.callee(n)["name"] == "operator*" and len(n["inner"]) == 2:
            return self.iter_of(self.strip(n["inner"][1]))
        if n["kind"] == "DeclRefExpr":
            e = self.env.get(n["referencedDecl"]["id"])
            if e is not None and e[0] == "iter":
                return e[1]
            if e is not None and e[0] == "ptr" and e[1].acc and e[1].acc[-1][0] == "i":
                q = e[1]
                return IterVal(Path(q.base, q.acc[:-1], Ty("vec", [q.ty]), q.immut), "vec", q.acc[-1][1])
        off = None
        if n["kind"] == "BinaryOperator" and n.get("opcode") in ("+", "-") and "*" in n["type"]["qualType"]:
            off = n["opcode"], n["inner"][0], n["inner"][1]
        elif n["kind"] == "CXXOperatorCallExpr" and self.callee(n)["name"] in ("operator+", "operator-") and "iterator" in n["type"].get("qualType", "") and len(n["inner"]) == 3:
            off = self.callee(n)["name"][8:], n["inner"][1], n["inner"][2]
        if off:
            iv = self.iter_of(self.strip(off[1]))
            if iv is not None and iv.found == "vec":
                c, _ = self.ex(off[2])
                return IterVal(iv.path, "vec", self.bind("(%s %s %s)" % (iv.key, off[0], c), "it"))
        if n["kind"] == "CXXMemberCallExpr":
            m = self.strip(n["inner"][0])
            if m["kind"] == "MemberExpr" and m.get("name") in ("find", "begin", "end", "cbegin", "cend", "rbegin", "rend"):
                return self.make_iter(n)
        if n["kind"] == "CallExpr" and len(n["inner"]) == 2 and self.callee(n).get("name") in ("begin", "end", "cbegin", "cend") and "iterator" in n["type"].get("qualType", "") + n["type"].get("desugaredQualType", ""):
            return self.make_iter(dict(n, inner=[dict(kind="MemberExpr", name=self.callee(n)["name"], inner=[n["inner"][1]])]))
        if n["kind"] == "CXXConstructExpr" and len(n.get("inner", [])) == 1 and "iterator" in n.get("type", {}).get("qualType", ""):
            return self.iter_of(self.strip(n["inner"][0]))
        return None

    def make_iter(self, n):
        m = self.strip(n["inner"][0])
        name = m["name"]
        if self.ty(m["inner"][0]).k == "set" and self.ty(m["inner"][0]).a[0].k in RANGE:
            vals = self.constset(m["inner"][0])
            if vals is not None and name in ("end", "cend"):
                return IterVal(None, "false", None)
            if vals is not None and name == "find":
                kc, _ = self.ex(n["inner"][1])
                kv = self.bind(kc, "k")
                f = self.fresh("found")
                self.emit("let %s = (%s) in" % (f, " || ".join("%s = %d" % (kv, v) for v in vals)))
                return IterVal(None, f, kv)
        p = self.lvx(m["inner"][0])
        if p.ty.k == "map":
            if name == "find":
                kc, _ = self.ex(n["inner"][1])
                kv = self.bind(kc, "k")
                f = self.fresh("found")
                self.emit("let %s = fmem %s %s in" % (f, kv, self.read(p)))
                return IterVal(p, f, kv)
            if name in ("end", "cend"):
                return IterVal(p, "false", None)
            if name in ("begin", "cbegin"):
                f, kv = self.fresh("found"), self.fresh("k")
                self.emit("let (%s, %s) = any_begin %s in" % (f, kv, self.read(p)))
                return IterVal(p, f, kv)
        if p.ty.k in ("vec", "arr") or (p.ty.k == "str" and self.opts.get("strseq")):
            if name in ("begin", "cbegin"):
                return IterVal(p, "vec", "0")
            if name in ("end", "cend"):
                return IterVal(p, "vec", "(length %s)" % self.read(p))
        self.unsup("iterator %s on %r" % (name, p.ty))

    def constset(self, n):
        """Elements of a constant set of characters or integers with a literal initialiser (possibly out of class)."""
        n = self.strip(n)
        did = n.get("referencedDecl", {}).get("id") or n.get("referencedMemberDecl")
        d = self.u.decl.get(did)
        if d is None or d["kind"] != "VarDecl" or "const" not in d["type"]["qualType"]:
            return None
        for x in [d] + [x for x in self.u.decl.values() if x["kind"] == "VarDecl" and (x.get("previousDecl") == d["id"] or x["id"] == d.get("previousDecl"))]:
            vals, other = [], []

            def walk(c):
                if c.get("kind") == "CharacterLiteral" or c.get("kind") == "IntegerLiteral":
                    vals.append(int(c["value"]))
                elif c.get("kind") in ("CallExpr", "BinaryOperator", "UnaryOperator", "ConditionalOperator", "StringLiteral", "LambdaExpr", "CXXMemberCallExpr"):
                    other.append(c)
                elif c.get("kind") != "CXXDefaultArgExpr":
                    for q in c.get("inner", []):
                        walk(q)
            for c in x.get("inner", []):
                if c.get("kind", "").endswith("Expr") or c.get("kind") == "ExprWithCleanups":
                    walk(c)
            if vals and not other:
                return sorted(set(vals))
        return None

    def iter_member(self, iv, name):
        if iv.found == "vec":
            return self.index(iv.path, iv.key) if name is None else self.member(self.index(iv.path, iv.key), name)
        if name == "second":
            if iv.found not in ("true",):
                self.emit("assert { iterator_deref: %s };" % self.bool2prop(iv.found) if False else "check_iter %s;" % iv.found)
            return Path(iv.path.base, iv.path.acc + (("k", iv.key),), iv.path.ty.a[1], iv.path.immut)
        if name == "first":
            return Path(iv.key, (), iv.path.ty.a[0], True)
        if name is None:
            return Path("{ first = %s; second = %s }" % (iv.key, self.read(Path(iv.path.base, iv.path.acc + (("k", iv.key),)))), (),
                        Ty("pair", iv.path.ty.a), True)
        self.unsup("iterator member %s" % name)

    # ------------------------------------------------------------ expressions
    def ex(self, n):
        """Translate an rvalue use of n; returns (code, type)."""
        k = n["kind"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            if n.get("valueCategory") == "lvalue":
                p = self.lv(n)
                return self.read(p), p.ty
            self.unsup("expression", n)
        return m(n)

    def _inner(self, n):
        inner = [c for c in n.get("inner", []) if c.get("kind") and not c["kind"].endswith("Decl")]
        return self.ex(inner[-1])

    x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ParenExpr = x_ConstantExpr = _inner
    x_SubstNonTypeTemplateParmExpr = None

    def x_SubstNonTypeTemplateParmExpr(self, n):
        a = self.opts.get("arrlen")
        if a:
            return a, self.ty(n)
        return self._inner(n)

    def x_IntegerLiteral(self, n):
        return self.intlit(n["value"]), self.ty(n)

    def intlit(self, v):
        return "(%s)" % v if str(v).startswith("-") else str(v)

    def x_CharacterLiteral(self, n):
        return str(n["value"]), self.ty(n)

    def x_CXXBoolLiteralExpr(self, n):
        return ("true" if n["value"] else "false"), Ty("bool")

    def x_FloatingLiteral(self, n):
        v = str(n["value"])
        if "." not in v and "e" not in v.lower():
            v += ".0"
        return v, self.ty(n)

    def x_StringLiteral(self, n):
        if self.opts.get("strseq"):
            import json as _j
            v = _j.loads(n["value"])
            if len(v) != 1 or ord(v) > 127:
                return ("s_empty" if not v else '(cstr_lit %s)' % n["value"]), Ty("str")
            return "(s_lit1 %d)" % ord(v), Ty("str")
        return '(cstr_lit %s)' % n["value"], Ty("str")

    def x_CXXDefaultArgExpr(self, n):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        if inner:
            return self.ex(inner[-1])
        self.unsup("default argument", n)

    def x_CXXNullPtrLiteralExpr(self, n):
        self.unsup("nullptr", n)

    def lvread(self, n):
        p = self.lv(n)
        return self.read(p), p.ty

    x_DeclRefExpr = x_MemberExpr = x_ArraySubscriptExpr = None

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            q = d["name"].lower()
            self.opts.setdefault("_enums", {})
            v = self.enumval(d["id"])
            return str(v), Ty("i32")
        return self.lvread(n)

    def enumval(self, did):
        par = self.u.parent.get(did)
        if par is None:
            self.unsup("enum constant")
        v = -1
        for c in par.get("inner", []):
            if c.get("kind") == "EnumConstantDecl":
                lit = self._find(c, "ConstantExpr")
                if lit is not None and "value" in lit:
                    v = int(lit["value"])
                else:
                    v += 1
                if c["id"] == did:
                    return v
        self.unsup("enum constant")

    def _find(self, n, kind):
        for c in n.get("inner", []):
            if c.get("kind") == kind:
                return c
            r = self._find(c, kind)
            if r is not None:
                return r
        return None

    def x_MemberExpr(self, n):
        if n.get("valueCategory") == "lvalue":
            return self.lvread(n)
        p = self.lvx(n["inner"][0])
        q = self.member(p, n["name"])
        return self.read(q), q.ty

    def x_CXXDeleteExpr(self, n):
        if not n.get("isArray"):
            self.unsup("delete", n)
        s = self.strip(n["inner"][0])
        while s["kind"] == "ImplicitCastExpr":
            s = self.strip(s["inner"][0])
        p = self.lv(s)
        if p.ty.k != "vec" or p.acc:
            self.unsup("delete[]", n)
        self.write(p, "(empty : %s)" % self.wty(p.ty))
        return "()", Ty("void")

    def x_ArraySubscriptExpr(self, n):
        return self.lvread(n)

    def x_ImplicitCastExpr(self, n):
        ck = n["castKind"]
        inner = n["inner"][0]
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay"):
            return self.ex(inner)
        if ck == "LValueToRValue":
            return self.ex(inner)
        if ck == "ArrayToPointerDecay":
            return self.ex(inner)
        if ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            return self.convert(inner, self.ty(n))
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            return self.ex(inner)
        self.unsup("cast " + ck, n)

    def x_CStyleCastExpr(self, n):
        ck = n["castKind"]
        inner = [c for c in n["inner"] if c.get("kind")][0]
        if ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            return self.convert(inner, self.ty(n))
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion"):
            return self.ex(inner)
        if ck == "ToVoid":
            return "()", Ty("void")
        self.unsup("cast " + ck, n)

    x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CStyleCastExpr

    def convert(self, inner, to):
        # static value of the constant, if the operand is an integer literal
        c, t = self.ex(inner)
        return self.conv(c, t, to), to

    def conv(self, c, t, to):
        if t.k == to.k:
            return c
        if t.k in RANGE and to.k in RANGE:
            lo, hi = RANGE[t.k]
            l2, h2 = RANGE[to.k]
            if re.match(r"^\d+$", c) and l2 <= int(c) <= h2:
                return c
            m = re.match(r"^\((-\d+)\)$", c)
            if m and l2 <= int(m.group(1)) <= h2:
                return c
            if l2 <= lo and hi <= h2:
                return c
            return "(%s_to_%s %s)" % (t.k, to.k, c) if (t.k, to.k) in CONVS else "(to_%s %s)" % (to.k, c)
        if t.k == "bool" and to.k in RANGE:
            return "(if %s then 1 else 0)" % c
        if t.k in RANGE and to.k == "bool":
            return "(%s <> 0)" % c
        if t.k in RANGE and to.k in ("ld",):
            return "(ld_of_int %s)" % c
        if t.k in RANGE and to.k in ("dbl",):
            return "(dbl_of_int %s)" % c
        if t.k == "ld" and to.k in RANGE:
            return "(ld_to_%s %s)" % (to.k, c)
        if t.k == "dbl" and to.k in RANGE:
            return "(dbl_to_%s %s)" % (to.k, c)
        if t.k == "mpz" and to.k == "mpz":
            return c
        if t.k in RANGE and to.k == "mpz":
            return c
        self.unsup("conversion %r -> %r" % (t, to))

    def args_ordered(self, nodes):
        """Translate operands left to right; earlier ones are frozen if a later one has effects."""
        res = []
        for i, a in enumerate(nodes):
            c, t = self.ex(a)
            if any(self.has_effect(b) for b in nodes[i + 1:]) and not re.match(r"^\(?-?\d+\)?$", c):
                v = self.fresh()
                self.emit("let %s = %s in" % (v, c))
                c = v
            res.append((c, t))
        return res

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        if op == "=":
            p = self.assign(n)
            return self.read(p), p.ty
        if op == ",":
            self.stmt(n["inner"][0])
            return self.ex(n["inner"][1])
        if op in ("&&", "||"):
            a, _ = self.ex(n["inner"][0])
            box = []
            blk = self.block(lambda: box.append(self.ex(n["inner"][1])[0]))
            b = box[0]
            if blk:
                b = "(" + " ".join(blk) + " " + b + ")"
            return "(%s %s %s)" % (a, op, b), Ty("bool")
        if op in ("==", "!="):
            l, r = (self.strip(x) for x in n["inner"])
            if r["kind"] == "CXXThisExpr":
                l, r = r, l
            if l["kind"] == "CXXThisExpr" and r["kind"] == "UnaryOperator" and r["opcode"] == "&":
                # one object: then both have the same value
                c = "(same_object %s %s)" % (self.read(self.this_path()), self.read(self.lv(r["inner"][0])))
                return ("(not %s)" % c if op == "!=" else c), Ty("bool")
        (a, ta), (b, tb) = self.args_ordered(n["inner"])
        return self.arith(op, a, ta, b, tb, self.ty(n))

    def arith(self, op, a, ta, b, tb, t):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if ta.k == "bool" and op in ("==", "!="):
                r = "(beq %s %s)" % (a, b)
                return (r if op == "==" else "(not %s)" % r), Ty("bool")
            if ta.k in ("ld", "dbl"):
                self.unsup("float comparison")
            o = {"==": "=", "!=": "<>"}.get(op, op)
            return "(%s %s %s)" % (a, o, b), Ty("bool")
        if t.k in ("ld", "dbl"):
            f = {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op]
            return "(%s_%s %s %s)" % (t.k, f, a, b), t
        if t.k in RANGE:
            if re.match(r"^\d+$", a) and re.match(r"^\d+$", b) and op in "+-*":
                v = {"+": int(a) + int(b), "-": int(a) - int(b), "*": int(a) * int(b)}[op]
                if RANGE[t.k][0] <= v <= RANGE[t.k][1]:
                    return self.intlit(v), t
            if op in ("<<", ">>"):
                if re.match(r"^\d+$", b):
                    if op == ">>" and t.k[0] == "u":
                        return "(%s_shr %s %d)" % (t.k, a, 2 ** int(b)), t
                    if op == "<<" and t.k[0] == "u":
                        return "(%s_shl %s %d)" % (t.k, a, 2 ** int(b)), t
                return "(%s_%s %s %s)" % (t.k, "shlv" if op == "<<" else "shrv", a, b), t
            if op == "&" and re.match(r"^\d+$", b) and (int(b) & (int(b) + 1)) == 0:
                return "(%s_low %s %d)" % (t.k, a, int(b) + 1), t
            f = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "and", "|": "or", "^": "xor"}[op]
            return "(%s_%s %s %s)" % (t.k, f, a, b), t
        self.unsup("operator %s on %r" % (op, t))

    def x_CompoundAssignOperator(self, n):
        p = self.assign(n)
        return self.read(p), p.ty

    def assign(self, n):
        if n["kind"] == "CompoundAssignOperator":
            op = n["opcode"][:-1]
            l, r = n["inner"]
            rc, rt = self.ex(r)
            if self.has_effect(r) or True:
                rc = self.bind(rc)
            p = self.lv(l)
            ct = parse_ty(n.get("computeLHSType", n["type"]).get("desugaredQualType", n.get("computeLHSType", n["type"]).get("qualType")))
            cur = self.conv(self.read(p), p.ty, ct)
            if op not in ("<<", ">>"):
                rc = self.conv(rc, rt, ct) if rt.k != ct.k else rc
            v, vt = self.arith(op, cur, ct, rc, rt, ct)
            self.write(p, self.conv(v, ct, p.ty))
            return p
        l, r = n["inner"]
        rc, rt = self.ex(r)
        if "=" in rc or True:
            rc = rc
        ls = self.strip(l)
        if self.has_effect(ls):
            rc = self.bind(rc)
        p = self.lv(l)
        if rt.k != p.ty.k:
            rc = self.conv(rc, rt, p.ty)
        self.write(p, rc)
        return p

    def incdec(self, p, op):
        t = p.ty
        if t.k in RANGE:
            self.write(p, "(%s_%s %s 1)" % (t.k, "add" if op == "++" else "sub", self.read(p)))
        elif t.k == "mpz":
            self.write(p, "(%s %s 1)" % (self.read(p), "+" if op == "++" else "-"))
        else:
            self.unsup("incdec on %r" % (t,))

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        if op in ("++", "--"):
            p = self.lv(n["inner"][0])
            if n.get("isPostfix"):
                v = self.fresh("old")
                self.emit("let %s = %s in" % (v, self.read(p)))
                self.incdec(p, op)
                return v, p.ty
            self.incdec(p, op)
            return self.read(p), p.ty
        if op == "!":
            c, t = self.ex(n["inner"][0])
            return "(not %s)" % c, Ty("bool")
        if op == "*":
            p = self.lv(n)
            return self.read(p), p.ty
        c, t = self.ex(n["inner"][0])
        rt = self.ty(n)
        if op == "-":
            if re.match(r"^\d+$", c) and rt.k[0] == "i":
                return "(-%s)" % c, rt
            return "(%s_neg %s)" % (rt.k, c), rt
        if op == "+":
            return c, t
        if op == "~":
            return "(%s_not %s)" % (rt.k, c), rt
        self.unsup("unary " + op)

    def x_ConditionalOperator(self, n):
        c, _ = self.ex(n["inner"][0])
        ba, bb = [], []
        A = self.block(lambda: ba.append(self.ex(n["inner"][1])))
        B = self.block(lambda: bb.append(self.ex(n["inner"][2])))
        (a, ta), (b, tb) = ba[0], bb[0]
        t = self.ty(n) if n.get("valueCategory") != "lvalue" else ta
        code = "(if %s then (%s %s) else (%s %s))" % (c, " ".join(A), a, " ".join(B), b)
        return code, t if t.k != "other" else ta

    # -- construction
    def default(self, t):
        if t.k in RANGE:
            return "0"
        if t.k == "bool":
            return "false"
        if t.k == "mpz":
            return "0"
        if t.k == "str":
            return "s_empty" if self.opts.get("strseq") else "cstr_empty"
        if t.k in ("vec", "queue", "list", "deque"):
            return "(empty : %s)" % self.wty(t)
        if t.k == "arr":
            return "(seq_make %s %s)" % (self.arrlen(t), self.default(t.a[0]))
        if t.k == "map":
            return "(fempty : %s)" % self.wty(t)
        if t.k == "pair":
            return "{ first = %s; second = %s }" % (self.default(t.a[0]), self.default(t.a[1]))
        if t.k == "obj":
            if t.name == "FFInt":
                if self.ff == "abs":
                    return "fzero"
                return "{ ffint_n = 0 }"
            d = self.opts.get("defaults", {}).get(t.name)
            if d:
                return d
            return self.call_ctor(t.name + "::" + t.name + "()", [], t)
        self.unsup("default value of %r" % (t,))

    def anyval(self, t):
        if t.k in RANGE:
            return "(any_%s ())" % t.k
        if t.k == "bool":
            return "(any_bool ())"
        if t.k in ("ld", "dbl"):
            return "(any_real ())" if t.k == "ld" else "(any_dbl ())"
        return self.default(t)

    def x_CXXConstructExpr(self, n):
        t = self.ty(n)
        args = [a for a in n.get("inner", []) if a.get("kind")]
        return self.construct(t, args, n), t

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXScalarValueInitExpr(self, n):
        t = self.ty(n)
        return self.default(t), t

    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr

    def construct(self, t, args, n):
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        ctor = n.get("constructorType", {}) if False else None
        # copy / move
        if len(args) == 1:
            a = self.strip(args[0])
            at = self.ty(a)
            if at == t or (t.k in ("vec",) and at.k == "vec") or (at.k == t.k and t.k in ("mpz", "str", "map", "queue", "list")):
                if a["kind"] not in ("InitListExpr",):
                    return self.ex(args[0])[0]
        if t.k == "mpz":
            if not args:
                return "0"
            c, at = self.ex(args[0])
            if at.k == "mpz" or at.k in RANGE:
                return c
            if at.k == "str":
                return "(%s %s)" % ("s_mpz" if self.opts.get("strseq") else "mpz_of_str", c)
            self.unsup("mpz from %r" % (at,))
        if t.k == "str":
            if not args:
                return "s_empty" if self.opts.get("strseq") else "cstr_empty"
            if len(args) == 2 and self.opts.get("strseq"):
                (c0, t0), (c1, t1) = self.args_ordered(args)
                if t0.k in RANGE and t1.k == "i8":
                    return "(s_fill %s %s)" % (c0, c1)
            if len(args) != 1:
                self.unsup("string constructor")
            return self.ex(args[0])[0]
        if t.k == "pair":
            if not args:
                return self.default(t)
            if len(args) == 2:
                (a, ta), (b, tb) = self.args_ordered(args)
                a = self.coerce(a, ta, t.a[0])
                b = self.coerce(b, tb, t.a[1])
                return "{ first = %s; second = %s }" % (a, b)
            if len(args) == 1:
                c, ct = self.ex(args[0])
                if ct.k == "pair":
                    v = self.bind(c)
                    return "{ first = %s; second = %s }" % (self.coerce(v + ".first", ct.a[0], t.a[0]), self.coerce(v + ".second", ct.a[1], t.a[1]))
        if t.k in ("vec", "deque"):
            if not args:
                return self.default(t)
            a0 = self.strip(args[0])
            if a0["kind"] in ("CXXStdInitializerListExpr", "InitListExpr"):
                return self.initlist(a0, t)
            if len(args) == 1 and self.ty(a0).k in RANGE:
                c, ct = self.ex(args[0])
                return "(vmake %s %s)" % (c, self.default(t.a[0]))
            if len(args) == 2 and self.ty(a0).k in RANGE:
                (a, ta), (b, tb) = self.args_ordered(args)
                b = self.coerce(b, tb, t.a[0])
                return "(vmake %s %s)" % (a, b)
            if len(args) == 2:
                i0, i1 = self.iter_of(self.strip(args[0])), self.iter_of(self.strip(args[1]))
                if i0 is not None and i1 is not None and i0.found == "vec" and (i0.path.base, i0.path.acc) == (i1.path.base, i1.path.acc):
                    return "(vslice %s %s %s)" % (self.read(i0.path), i0.key, i1.key)
            self.unsup("vector construction (%d args)" % len(args))
        if t.k == "arr":
            if not args:
                return self.anyarr(t)
        if t.k == "map":
            if not args:
                return self.default(t)
            a0 = self.strip(args[0])
            if a0["kind"] in ("CXXStdInitializerListExpr", "InitListExpr"):
                return self.initlist(a0, t)
            if self.ty(a0).k in RANGE:
                return self.default(t)
        if t.k in ("queue", "list") and not args:
            return self.default(t)
        if t.k == "obj" and not args and t.name in self.opts.get("defaults", {}):
            return self.opts["defaults"][t.name]
        if t.k == "obj":
            vals = self.args_ordered(args)
            if t.name == "FFInt" and self.ff == "abs":
                if not args:
                    return "fzero"
                c, at = vals[0]
                if len(args) == 1 and (at.k in RANGE or at.k == "mpz"):
                    return "(fofint %s)" % c
                if len(args) == 1 and at.k == "obj" and at.name == "FFInt":
                    return c
                self.unsup("FFInt construction")
            if len(args) == 1 and vals[0][1] == t:
                return vals[0][0]
            ptys = [short_ty(self.u.ptype(a)) for a in args]
            ps = self.ctor_params(n)
            key = "%s::%s(%s)" % (t.name, t.name, ",".join(ps) if ps is not None else "?")
            if ps is not None:
                vals = [(self.coerce(c, ct, parse_short(p)), None) for (c, ct), p in zip(vals, ps)]
            return self.call_ctor(key, [c for c, _ in vals], t)
        self.unsup("construction of %r with %d args" % (t, len(args)))

    def anyarr(self, t):
        v = self.fresh("arr")
        e = t.a[0]
        self.emit("let %s = any_seq %s %s in" % (v, self.arrlen(t), self.default(e)))
        return v

    def ctor_params(self, n):
        ct = n.get("ctorType", {}).get("qualType")
        if ct is None:
            return None
        m = re.match(r"^void \((.*)\)( noexcept.*)?$", ct)
        if not m:
            return None
        s = m.group(1)
        if not s:
            return []
        ds = n.get("ctorType", {}).get("desugaredQualType", ct)
        m2 = re.match(r"^void \((.*)\)( noexcept.*)?$", ds)
        return [short_ty(x) for x in _split(m2.group(1))]

    def coerce(self, c, t, to):
        if t is None or to is None or t.k == to.k:
            return c
        if t.k in RANGE and to.k in RANGE:
            return self.conv(c, t, to)
        if to.k == "obj" and to.name == "FFInt" and t.k in RANGE:
            if self.ff == "abs":
                return "(fofint %s)" % c
            return self.call_ctor("FFInt::FFInt(%s)" % t.k, [c], to)
        if to.k == "mpz" and t.k in RANGE:
            return c
        if to.k in ("queue", "vec", "list") and t.k in ("queue", "vec", "list"):
            return c
        if to.k == "bool" and t.k in RANGE or t.k == "bool" and to.k in RANGE:
            return self.conv(c, t, to)
        self.unsup("coercion %r -> %r" % (t, to))

    def initlist(self, n, t):
        while n["kind"] in ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
            n = self.strip(n["inner"][0])
        if n["kind"] != "InitListExpr":
            self.unsup("initializer list", n)
        els = [c for c in n.get("inner", []) if c.get("kind")]
        if t.k in ("vec", "arr"):
            vals = self.args_ordered(els)
            code = "(empty : %s)" % self.wty(t)
            for c, ct in vals:
                code = "(snoc %s %s)" % (code, self.coerce(c, ct, t.a[0]))
            return code
        if t.k == "map":
            vals = self.args_ordered(els)
            code = self.default(t)
            for c, ct in vals:
                v = self.bind(c)
                code = "(finsert %s.first %s.second %s)" % (v, v, code)
            return code
        self.unsup("initializer list for %r" % (t,))

    def x_InitListExpr(self, n):
        t = self.ty(n)
        els = [c for c in n.get("inner", []) if c.get("kind")]
        if t.k in ("vec", "arr", "map"):
            if t.k == "arr" and len(els) == 1 and els[0]["kind"] == "InitListExpr":
                els = els[0].get("inner", [])
                vals = self.args_ordered([c for c in els if c.get("kind")])
                code = "(empty : %s)" % self.wty(t)
                for c, ct in vals:
                    code = "(snoc %s %s)" % (code, self.coerce(c, ct, t.a[0]))
                return code, t
            return self.initlist(n, t), t
        if t.k in RANGE or t.k in ("bool", "mpz", "ld"):
            if not els:
                return self.default(t), t
            c, ct = self.ex(els[0])
            return self.coerce(c, ct, t), t
        if t.k == "pair" and len(els) == 2:
            (a, ta), (b, tb) = self.args_ordered(els)
            return "{ first = %s; second = %s }" % (self.coerce(a, ta, t.a[0]), self.coerce(b, tb, t.a[1])), t
        if t.k == "obj":
            return self.construct(t, els, n), t
        self.unsup("init list of %r" % (t,))

    def x_CXXStdInitializerListExpr(self, n):
        t = self.ty(n)
        return self.initlist(n, t), t

    # -- calls
    def callee(self, n):
        c = self.strip(n["inner"][0])
        while c["kind"] == "ImplicitCastExpr":
            c = self.strip(c["inner"][0])
        if c["kind"] == "DeclRefExpr":
            return c["referencedDecl"]
        if c["kind"] == "MemberExpr":
            d = self.u.decl.get(c.get("referencedMemberDecl", ""))
            return d or {"name": c.get("name"), "kind": "CXXMethodDecl", "id": c.get("referencedMemberDecl")}
        return {"name": "?"}

    def x_CXXOperatorCallExpr(self, n):
        cal = self.callee(n)
        nm = cal["name"]
        args = n["inner"][1:]
        if n.get("valueCategory") == "lvalue":
            p = self.lv(n)
            return self.read(p), p.ty
        if nm in ("operator==", "operator!="):
            i0 = self.iter_of(self.strip(args[0])) if self.maybe_iter(args[0]) else None
            if i0 is not None:
                i1 = self.iter_of(self.strip(args[1]))
                return self.iter_cmp(nm, i0, i1), Ty("bool")
        if nm == "operator*" and len(args) == 1:
            iv = self.iter_of(self.strip(args[0]))
            if iv is not None:
                p = self.iter_member(iv, None)
                return self.read(p), p.ty
        if nm == "operator()":
            return self.call_lambda(n, args)
        full = self.u.decl.get(cal.get("id", ""))
        if full is None:
            return self.lib_operator(n, nm, args)
        return self.call_decl(full, args, n, member=(full["kind"] == "CXXMethodDecl"))

    def maybe_iter(self, n):
        t = n.get("type", {})
        return "iterator" in (t.get("qualType", "") + t.get("desugaredQualType", ""))

    def iter_cmp(self, nm, a, b):
        if a.found == "vec":
            r = "(%s = %s)" % (a.key, b.key)
        elif b.found == "false":
            r = "(not %s)" % a.found
        elif a.found == "false":
            r = "(not %s)" % b.found
        else:
            self.unsup("iterator comparison")
        return r if nm == "operator==" else "(not %s)" % r

    def lib_operator(self, n, nm, args):
        op = nm[8:]
        if op == "<<":
            self.unsup("stream output as expression")
        vals = self.args_ordered(args)
        ts = [t for _, t in vals]
        cs = [c for c, _ in vals]
        if any(t.k == "mpz" for t in ts) and all(t.k == "mpz" or t.k in RANGE for t in ts):
            if len(cs) == 1:
                if op == "-":
                    return "(- %s)" % cs[0], Ty("mpz")
                if op == "+":
                    return cs[0], Ty("mpz")
            else:
                a, b = cs
                if op in ("+", "-", "*"):
                    return "(%s %s %s)" % (a, op, b), Ty("mpz")
                if op == "/":
                    return "(mpz_tdiv %s %s)" % (a, b), Ty("mpz")
                if op == "%":
                    return "(mpz_tmod %s %s)" % (a, b), Ty("mpz")
                if op in ("==", "!=", "<", "<=", ">", ">="):
                    return "(%s %s %s)" % (a, {"==": "=", "!=": "<>"}.get(op, op), b), Ty("bool")
        if len(cs) == 2 and op in ("==", "!=") and ts[0].k == ts[1].k and ts[0].k in ("vec", "str", "pair", "list", "arr"):
            r = "(%s %s %s)" % ({"vec": "veq", "list": "veq", "arr": "veq", "str": "s_eq" if self.opts.get("strseq") else "cstr_eq", "pair": "peq"}[ts[0].k], cs[0], cs[1])
            return (r if op == "==" else "(not %s)" % r), Ty("bool")
        if len(cs) == 2 and op in ("<", ">", "<=", ">=") and ts[0].k == ts[1].k == "vec" and ts[0].a[0].k in RANGE:
            a, b = cs if op in ("<", ">=") else (cs[1], cs[0])
            r = "(vlex_lt %s %s)" % (a, b)
            return (r if op in ("<", ">") else "(not %s)" % r), Ty("bool")
        if len(cs) == 2 and op == "+" and ts[0].k == "str" and ts[1].k == "str":
            return ("(s_cat %s %s)" if self.opts.get("strseq") else "(cstr_cat %s %s)") % tuple(cs), Ty("str")
        self.unsup("operator %s on %r" % (op, ts))

    def opassign(self, n):
        """Operator call returning a reference to its first operand."""
        cal = self.callee(n)
        nm = cal["name"]
        args = n["inner"][1:]
        full = self.u.decl.get(cal.get("id", ""))
        op = nm[8:]
        p0t = self.ty(self.strip(args[0]))
        if op == "=":
            if len(args) == 2:
                a1 = self.strip(args[1])
                if a1["kind"] in ("InitListExpr", "CXXStdInitializerListExpr"):
                    p = self.lv(args[0])
                    if a1["kind"] == "InitListExpr":
                        c = self.x_InitListExpr(dict(a1, type=self.strip(args[0])["type"]))[0]
                    else:
                        c = self.initlist(a1, p.ty)
                    self.write(p, c)
                    return p
                c, t = self.ex(args[1])
                if self.has_effect(args[0]):
                    c = self.bind(c)
                p = self.lv(args[0])
                self.write(p, self.coerce(c, t, p.ty))
                return p
        if full is not None and not (self.ff == "abs" and p0t.k == "obj" and p0t.name == "FFInt") and not self.is_lib(full):
            p = self.lv(args[0])
            self.call_decl(full, args, n, member=(full["kind"] == "CXXMethodDecl"), recv=p)
            return p
        c, t = self.ex(args[1]) if len(args) > 1 else ("1", Ty("i32"))
        if len(args) > 1:
            c = self.bind(c)
        p = self.lv(args[0])
        cur = self.read(p)
        if self.ff == "abs" and p.ty.k == "obj" and p.ty.name == "FFInt":
            c = self.coerce(c, t, p.ty)
            f = {"+=": "fadd", "-=": "fsub", "*=": "fmul", "/=": "fdiv"}.get(op)
            if f is None:
                self.unsup("FFInt " + op)
            self.write(p, "(%s %s %s)" % (f, cur, c))
            return p
        if p.ty.k == "mpz":
            if op in ("+=", "-=", "*="):
                self.write(p, "(%s %s %s)" % (cur, op[0], c))
            elif op in ("/=", "%="):
                self.write(p, "(%s %s %s)" % ("mpz_tdiv" if op == "/=" else "mpz_tmod", cur, c))
            elif op in ("++", "--"):
                self.write(p, "(%s %s 1)" % (cur, op[0]))
            else:
                self.unsup("mpz " + op)
            return p
        if p.ty.k == "str" and op == "+=":
            if t.k == "i8":
                c = "(cstr_char %s)" % c
            self.write(p, "(cstr_cat %s %s)" % (cur, c))
            return p
        self.unsup("operator %s on %r" % (op, p.ty))

    def is_lib(self, d):
        return False

    def member_lv(self, n):
        m = self.strip(n["inner"][0])
        if m["kind"] != "MemberExpr":
            return None
        name = m["name"]
        args = n["inner"][1:]
        d = self.u.decl.get(m.get("referencedMemberDecl", ""))
        if d is None or name in ("at",):
            try:
                p = self.lvx(m["inner"][0])
            except ExtractError:
                return None
            if p.ty.k in ("vec", "arr", "deque") and name in ("at", "operator[]"):
                i, _ = self.ex(args[0])
                return self.index(p, self.bind(i))
            if p.ty.k in ("vec", "arr", "queue", "list", "deque") and name == "front":
                return self.index(p, "0")
            if p.ty.k in ("vec", "arr", "queue", "list", "deque") and (name == "back" or (name == "top" and p.ty.k == "vec")):
                return self.index(p, "(length %s - 1)" % self.read(p))
            if p.ty.k == "map" and name == "at":
                kc, _ = self.ex(args[0])
                return Path(p.base, p.acc + (("k", self.bind(kc, "k")),), p.ty.a[1], p.immut)
        return None

    def x_CXXMemberCallExpr(self, n):
        m = self.strip(n["inner"][0])
        if m["kind"] != "MemberExpr":
            self.unsup("member call", m)
        name = m["name"]
        args = [a for a in n["inner"][1:]]
        d = self.u.decl.get(m.get("referencedMemberDecl", ""))
        if d is not None:
            return self.call_decl(d, [m["inner"][0]] + args, n, member=True, arrow=m.get("isArrow"))
        return self.lib_method(n, m, name, args)

    def lib_method(self, n, m, name, args):
        base = m["inner"][0]
        bt = self.ty(self.strip(base))
        if m.get("isArrow"):
            self.unsup("arrow call " + name)
        p = self.lvx(base)
        t = p.ty
        rt = self.ty(n)
        if t.k in ("vec", "arr", "queue", "list", "deque"):
            if name == "size":
                return "(length %s)" % self.read(p), Ty("u64")
            if name == "empty":
                return "(length %s = 0)" % self.read(p), Ty("bool")
            if name in ("push_back", "emplace_back", "push"):
                if name == "emplace_back" and len(args) == 1 and self.ty(self.strip(args[0])).k in RANGE and t.a[0].k == "vec":
                    c = self.construct(t.a[0], args, n)
                elif name == "emplace_back" and (len(args) != 1):
                    c = self.construct(t.a[0], args, n)
                else:
                    c, ct = self.ex(args[0])
                    if ct.k != t.a[0].k:
                        c = self.coerce(c, ct, t.a[0])
                c = self.bind(c)
                self.write(p, "(vpush %s %s)" % (self.read(p), c))
                return "()", Ty("void")
            if name == "pop_back" or (name == "pop" and t.k == "vec"):
                self.write(p, "(vpop %s)" % self.read(p))
                return "()", Ty("void")
            if name in ("pop", "pop_front"):
                self.write(p, "(vpopfront %s)" % self.read(p))
                return "()", Ty("void")
            if name == "clear":
                self.write(p, self.default(t))
                return "()", Ty("void")
            if name in ("reserve", "shrink_to_fit"):
                self.dropped.append("%s()" % name)
                return "()", Ty("void")
            if name == "swap":
                q = self.lv(args[0])
                a = self.bind(self.read(p))
                if a == self.read(p):
                    a2 = self.fresh()
                    self.emit("let %s = %s in" % (a2, a))
                    a = a2
                self.write(p, self.read(q))
                self.write(q, a)
                return "()", Ty("void")
            if name == "resize":
                c, _ = self.ex(args[0])
                v = self.default(t.a[0])
                real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
                if len(real) == 2:
                    v = self.coerce(*self.ex(real[1]), t.a[0])
                self.write(p, "(vresize %s %s %s)" % (self.read(p), c, v))
                return "()", Ty("void")
            if name in ("insert", "emplace") and len(args) == 2:
                it = self.iter_of(self.strip(args[0]))
                if it is not None and it.found == "vec":
                    c, ct = self.ex(args[1])
                    c = self.coerce(c, ct, t.a[0])
                    self.write(p, "(vinsert %s %s %s)" % (self.read(p), it.key, c))
                    return "()", Ty("void")
            if name == "insert" and len(args) == 3:
                it = self.iter_of(self.strip(args[0]))
                i1, i2 = self.iter_of(self.strip(args[1])), self.iter_of(self.strip(args[2]))
                if it and i1 and i2 and it.found == i1.found == i2.found == "vec" and it.key.startswith("(length"):
                    self.write(p, "(vappend %s (vslice %s %s %s))" % (self.read(p), self.read(i1.path), i1.key, i2.key))
                    return "()", Ty("void")
            if name == "erase" and len(args) == 1:
                it = self.iter_of(self.strip(args[0]))
                if it is not None and it.found == "vec":
                    self.write(p, "(verase %s %s)" % (self.read(p), it.key))
                    return "()", Ty("void")
            if name == "assign" and len(args) == 2:
                (a, ta), (b, tb) = self.args_ordered(args)
                self.write(p, "(vmake %s %s)" % (a, self.coerce(b, tb, t.a[0])))
                return "()", Ty("void")
            if name == "fill" and len(args) == 1:
                c, ct = self.ex(args[0])
                self.write(p, "(seq_make (length %s) %s)" % (self.read(p), self.coerce(c, ct, t.a[0])))
                return "()", Ty("void")
            if name in ("front", "back", "at", "top"):
                q = self.member_lv(n)
                return self.read(q), q.ty
        if t.k == "map":
            if name == "size":
                return "(fsize %s)" % self.read(p), Ty("u64")
            if name == "empty":
                return "(fisempty %s)" % self.read(p), Ty("bool")
            if name in ("emplace", "insert"):
                if len(args) == 1:
                    c, ct = self.ex(args[0])
                    v = self.bind(c)
                    kk, vv = self.coerce(v + ".first", ct.a[0], t.a[0]), self.coerce(v + ".second", ct.a[1], t.a[1])
                else:
                    (a, ta), (b, tb) = self.args_ordered(args)
                    kk, vv = self.coerce(a, ta, t.a[0]), self.coerce(b, tb, t.a[1])
                kk, vv = self.bind(kk, "k"), self.bind(vv)
                r = self.read(p)
                self.write(p, "(finsert %s %s %s)" % (kk, vv, r))
                return "()", Ty("void")
            if name == "clear":
                self.write(p, self.default(t))
                return "()", Ty("void")
            if name == "reserve":
                self.dropped.append("reserve()")
                return "()", Ty("void")
            if name == "erase":
                it = self.iter_of(self.strip(args[0]))
                if it is not None:
                    self.write(p, "(fremove_ %s %s)" % (it.key, self.read(p)))
                    return "()", Ty("void")
                kc, _ = self.ex(args[0])
                self.write(p, "(fremove_ %s %s)" % (kc, self.read(p)))
                return "()", Ty("void")
            if name == "count":
                kc, _ = self.ex(args[0])
                return "(if fmem %s %s then 1 else 0)" % (kc, self.read(p)), Ty("u64")
            if name == "at":
                q = self.member_lv(n)
                return self.read(q), q.ty
        if t.k == "mpz":
            if name in ("get_mpz_t",):
                return self.read(p), Ty("mpz")
            if name == "get_str":
                return "(str_of_int %s)" % self.read(p), Ty("str")
            if name == "get_ui":
                return "(mpz_get_ui %s)" % self.read(p), Ty("u64")
        if t.k == "str":
            ln = "length" if self.opts.get("strseq") else "cstr_len"
            if name in ("size", "length"):
                return "(%s %s)" % (ln, self.read(p)), Ty("u64")
            if name == "empty":
                return "(%s %s = 0)" % (ln, self.read(p)), Ty("bool")
            if name == "erase" and self.opts.get("strseq") and len(args) == 2 and self.iter_of(self.strip(args[0])) is None:
                (a, ta), (b, tb) = self.args_ordered(args)
                self.write(p, "(s_erase %s %s %s)" % (self.read(p), a, b))
                return "()", Ty("void")
            if self.opts.get("strseq") and name == "erase" and len(args) == 1:
                iv = self.iter_of(self.strip(args[0]))
                if iv is not None and iv.found == "vec":
                    self.write(p, "(s_erase1 %s %s)" % (self.read(p), iv.key))
                    return "()", Ty("void")
            if self.opts.get("strseq") and name == "insert" and len(args) == 2:
                iv = self.iter_of(self.strip(args[0]))
                if iv is not None and iv.found == "vec" and self.ty(args[1]).k in RANGE:
                    c, _ = self.ex(args[1])
                    self.write(p, "(s_insert %s %s %s)" % (self.read(p), iv.key, c))
                    return "()", Ty("void")
            if self.opts.get("strseq") and name == "push_back" and len(args) == 1:
                c, _ = self.ex(args[0])
                self.write(p, "(snoc %s %s)" % (self.read(p), c))
                return "()", Ty("void")
            if self.opts.get("strseq") and name in ("front", "back"):
                return "(s_%s %s)" % (name, self.read(p)), Ty("i8")
            if self.opts.get("strseq") and name in ("clear",):
                self.write(p, "s_empty")
                return "()", Ty("void")
            if name == "c_str":
                return self.read(p), Ty("str")
        self.unsup("method %s on %r" % (name, t))

    def x_CallExpr(self, n):
        cal = self.callee(n)
        args = n["inner"][1:]
        full = self.u.decl.get(cal.get("id", ""))
        if full is not None and full["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return self.call_decl(full, args, n, member=False)
        return self.lib_call(n, cal["name"], args)

    def lib_call(self, n, name, args):
        if name == "make_pair":
            (a, ta), (b, tb) = self.args_ordered(args)
            t = self.ty(n)
            if t.k == "pair":
                a, b = self.coerce(a, ta, t.a[0]), self.coerce(b, tb, t.a[1])
            else:
                t = Ty("pair", [ta, tb])
            return "{ first = %s; second = %s }" % (a, b), t
        if name in ("move", "forward"):
            return self.ex(args[0])
        if name in ("min", "max") and len(args) == 2:
            (a, ta), (b, tb) = self.args_ordered(args)
            a, b = self.bind(a), self.bind(b)
            return "(if %s %s %s then %s else %s)" % (b, "<" if name == "min" else ">", a, b, a), ta
        if name == "gcd" and len(args) == 2:
            (a, ta), (b, tb) = self.args_ordered(args)
            return "(mpz_gcd %s %s)" % (a, b), Ty("mpz")
        if name == "abs":
            c, t = self.ex(args[0])
            if t.k == "mpz":
                return "(mpz_abs %s)" % c, t
            return "(%s_abs %s)" % (t.k, c), t
        if name in ("__gmpz_init", "__gmpz_clear", "mpz_init", "mpz_clear"):
            self.dropped.append(name)
            if name.endswith("init"):
                p = self.lv(args[0])
                self.write(p, "0")
            return "()", Ty("void")
        if name in ("__gmpz_invert",):
            (a, ta), (b, tb) = self.args_ordered(args[1:])
            p = self.lv(args[0])
            r = self.fresh("inv")
            self.emit("let (%s_ok, %s) = mpz_invert %s %s %s in" % (r, r, self.read(p), a, b))
            self.write(p, r)
            return "(if %s_ok then 1 else 0)" % r, Ty("i32")
        if name in ("__gmpz_sizeinbase",):
            (a, ta), (b, tb) = self.args_ordered(args)
            return "(mpz_sizeinbase %s %s)" % (a, b), Ty("u64")
        if name == "__gmpz_get_ui":
            c, _ = self.ex(args[0])
            return "(mpz_get_ui %s)" % c, Ty("u64")
        if name == "to_string":
            c, t = self.ex(args[0])
            return "(str_of_int %s)" % c, Ty("str")
        if name == "stoull":
            real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            c, t = self.ex(real[0])
            return ("(s_stoull %s)" if self.opts.get("strseq") else "(stoull %s)") % c, Ty("u64")
        if name == "isdigit" and self.opts.get("strseq"):
            c, t = self.ex(args[0])
            return "(s_isdigit %s)" % c, Ty("i32")
        if name == "swap" and len(args) == 2:
            p, q = self.lv(args[0]), self.lv(args[1])
            a, b = self.fresh("sw"), self.fresh("sw")
            self.emit("let %s = %s in" % (a, self.read(p)))
            self.emit("let %s = %s in" % (b, self.read(q)))
            self.write(p, b)
            self.write(q, a)
            return "()", Ty("void")
        if name in ("exit", "abort", "terminate"):
            self.throw()
            return "()", Ty("void")
        if name == "reverse" and len(args) == 2:
            i0, i1 = self.iter_of(self.strip(args[0])), self.iter_of(self.strip(args[1]))
            if i0 and i1 and i0.found == "vec" and i1.found == "vec" and i0.key == "0" and i1.key.startswith("(length"):
                self.write(i0.path, "(vreverse %s)" % self.read(i0.path))
                return "()", Ty("void")
        if name in ("n_mulmod2_preinv", "n_powmod2_preinv", "n_invmod", "n_addmod", "n_preinvert_limb"):
            cs = [self.bind(c) for c, _ in self.args_ordered(args)]
            return "(%s %s)" % (name, " ".join("(%s)" % c for c in cs)), Ty("u64")
        if name == "next_permutation" and len(args) == 2:
            i0, i1 = self.whole_range(args)
            b, r = self.fresh("np"), self.fresh("perm")
            self.emit("let (%s, %s) = next_permutation %s in" % (b, r, self.read(i0.path)))
            self.write(i0.path, r)
            return b, Ty("bool")
        if name in ("sort", "stable_sort") and "sort" in self.opts and len(args) in (2, 3):
            return self.sort_call(args)
        lc = self.opts.get("libcalls", {}).get(name)
        if lc is not None:
            return lc(self, n, args)
        self.unsup("library call %s" % name)

    def whole_range(self, args):
        i0, i1 = self.iter_of(self.strip(args[0])), self.iter_of(self.strip(args[1]))
        if not (i0 and i1 and i0.found == i1.found == "vec" and (i0.path.base, i0.path.acc) == (i1.path.base, i1.path.acc)):
            self.unsup("range")
        ln = "length %s" % self.read(i1.path)
        if i0.key != "0" or i1.key != "(%s)" % ln:
            self.emit("assert { [@expl:range is the whole sequence] %s = 0 /\\ %s = %s };" % (i0.key, i1.key, "length %s" % self.specread(i1.path)))
        return i0, i1

    def sort_call(self, args):
        """std::sort over a whole vector: the comparator's body is checked to compute the predicate the contract sorts by."""
        val, pred = self.opts["sort"]
        i0, _ = self.whole_range(args)
        et = i0.path.ty.a[0]
        w = self.wty(et)
        s = "unsorted"
        self.emit("let unsorted = %s in" % self.read(i0.path))

        def body():
            self.emit("let cmp_i, cmp_j = any_index (length %s), any_index (length %s) in" % (s, s))
            self.emit("let cmp_a = %s[cmp_i] in let cmp_b = %s[cmp_j] in" % (s, s))
            a, b = Path("cmp_a", (), et, True), Path("cmp_b", (), et, True)
            if len(args) == 3:
                lam = self.strip(args[2])
                while lam["kind"] in ("CXXConstructExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr"):
                    lam = self.strip(lam["inner"][0])
                if lam["kind"] == "DeclRefExpr" and self.env.get(lam["referencedDecl"]["id"], (None,))[0] == "lambda":
                    lam = self.env[lam["referencedDecl"]["id"]][1]
                if lam["kind"] != "LambdaExpr":
                    self.unsup("comparator")
                r, _ = self.inline_lambda(lam, [("path", a), ("path", b)])
            else:
                self.unsup("sort without comparator")
            self.emit("let cmp_r = %s in" % r)
            self.emit("assert { [@expl:comparator computes the stated order] cmp_r <-> %s };" % pred.format(a="cmp_a", b="cmp_b"))
        blk = self.block(body)
        self.emit("if length %s > 0 then begin %s () end;" % (s, "\n".join(blk)))
        self.write(i0.path, "(%s %s)" % (val, s))
        return "()", Ty("void")

    # -- calls to functions of the code base
    def call_decl(self, d, args, n, member=False, recv=None, arrow=None):
        key = self.u.fkey(d)
        name = d["name"]
        static = d.get("storageClass") == "static"
        # abstract field mode: FFInt operations are the field operations
        if self.ff == "abs":
            r = self.ff_call(d, key, name, args, n, member)
            if r is not None:
                return r
        cust = self.opts.get("calls", {}).get(key)
        if cust is not None:
            return cust(self, n, args)
        # C++ postfix operators carry a dummy int
        params = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        ismeth = d["kind"] == "CXXMethodDecl" and not static
        recvn = None
        if ismeth:
            if n["kind"] == "CXXOperatorCallExpr":
                recvn, args = args[0], args[1:]
            elif n["kind"] == "CXXMemberCallExpr":
                recvn, args = args[0], args[1:]
            else:
                self.unsup("method call form", n)
        isconst = " const" in d.get("type", {}).get("qualType", "").split(")")[-1]
        spec = self.specs.get(key)
        if spec is None or key in self.cur_inline:
            return self.inline(d, key, recvn, args, recv, n)
        cargs = []
        post = []
        if ismeth:
            p = recv if recv is not None else (self.this_path() if self.strip(recvn)["kind"] == "CXXThisExpr" or (
                self.strip(recvn)["kind"] == "ImplicitCastExpr" and self.strip(self.strip(recvn)["inner"][0])["kind"] == "CXXThisExpr") else self.lvx(recvn))
            if isconst:
                cargs.append(self.read(p))
            else:
                cargs.append(self.refarg(p, post))
        pts = [parse_ty(self.u.ptype(c)) for c in params]
        nodes = args[:len(pts)]
        for i, (a, pt) in enumerate(zip(nodes, pts)):
            if pt.ref and not pt.const and not self.u.ptype(params[i]).rstrip().endswith("&&"):
                p = self.lv(a)
                cargs.append(self.refarg(p, post))
            else:
                if a["kind"] == "CXXDefaultArgExpr":
                    c, ct = self.default_arg(params[i])
                else:
                    c, ct = self.ex(a)
                if ct is not None and ct.k != pt.k:
                    c = self.coerce(c, ct, pt)
                if any(self.has_effect(b) for b in nodes[i + 1:]):
                    c = self.bind(c)
                cargs.append(c)
        rt = self.ret_ty(d)
        return self.emit_call(spec, cargs, rt, post)

    def default_arg(self, pd):
        inner = [c for c in pd.get("inner", []) if c.get("kind")]
        if inner:
            return self.ex(inner[-1])
        self.unsup("default argument")

    def ret_ty(self, d):
        q = d["type"].get("desugaredQualType", d["type"]["qualType"])
        if d["kind"] == "CXXConstructorDecl":
            return parse_ty(d["name"])
        # strip the parameter list
        depth = 0
        i = len(q) - 1
        # find last top-level '(' group
        j = q.rfind(")")
        k = j
        depth = 0
        while k >= 0:
            if q[k] == ")":
                depth += 1
            if q[k] == "(":
                depth -= 1
                if depth == 0:
                    break
            k -= 1
        return parse_ty(q[:k].strip())

    def refarg(self, p, post):
        if not p.acc and not p.immut:
            for m in self.modstack:
                m.add(p.base)
            return "&" + p.base
        v = self.fresh("r")
        self.emit("let ref %s = %s in" % (v, self.read(p)))
        post.append((p, v))
        return "&" + v

    def emit_call(self, spec, cargs, rt, post):
        if spec not in self.used:
            self.used.append(spec)
        for w in spec.writes:
            w0 = w.split(".")[0]
            if w0 not in spec.params and w0 != "this":
                for m in self.modstack:
                    m.add(w0)
        code = "%s %s" % (spec.mangled, " ".join(x if re.match(r"^[&\w.]+$", x) or (x.startswith("(") and self.closed(x)) else "(%s)" % x for x in cargs) if cargs else "()")
        if spec.throws is not None:
            self.note_throw()
        if rt.k == "void" or rt.ref:
            self.emit(code + ";")
            for p, v in post:
                self.write(p, v)
            return "()", rt
        v = self.fresh("c")
        self.emit("let %s = %s in" % (v, code))
        for p, pv in post:
            self.write(p, pv)
        return v, rt

    def closed(self, x):
        d = 0
        for i, ch in enumerate(x):
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0 and i < len(x) - 1:
                    return False
        return True

    def call_ctor(self, key, cargs, t):
        spec = self.specs.get(key)
        if spec is not None and key not in self.cur_inline:
            return self.emit_call(spec, cargs, t, [])[0]
        d = self.u.funcs.get(key)
        if d is None:
            # implicitly defined default constructor
            if not cargs and t.k == "obj":
                fs = []
                cands = self.u.records.get(t.name)
                rec = cands[-1]
                for f, ft in self.record(t):
                    init = None
                    for c in rec.get("inner", []):
                        if c.get("kind") == "FieldDecl" and c["name"] == f and c.get("hasInClassInitializer"):
                            ii = [x for x in c.get("inner", []) if x.get("kind")]
                            if ii:
                                init = self.coerce(*self.ex(ii[-1]), ft)
                    fs.append("%s = %s" % (self.fieldname(t, f), init if init is not None else self.anyval(ft)))
                return "{ %s }" % "; ".join(fs)
            self.unsup("constructor %s" % key)
        return self.inline_ctor(d, key, cargs, t)

    def inline_ctor(self, d, key, cargs, t):
        if self.inl_depth > 6:
            self.unsup("inline depth at " + key)
        self.inlined.append(key)
        self.inl_depth += 1
        saved = self.env, self.retmode
        self.env = dict(self.env)
        params = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        for pd, c in zip(params, cargs):
            nm = self.localname(pd)
            self.emit("let ref %s = %s in" % (nm, c))
            self.mutvars.add(nm)
            self.env[pd["id"]] = ("path", Path(nm, (), parse_ty(self.u.ptype(pd))))
        th = self.fresh("obj")
        self.ctor_body(d, t, th)
        self.env, self.retmode = saved
        self.inl_depth -= 1
        return th

    def ctor_body(self, d, t, th):
        """Emit construction of `th` (a ref) for constructor d."""
        fields = self.record(t)
        inits = {}
        rec = self.u.records.get(t.name)[0 if not t.a else -1]
        order = []
        deleg = None
        for c in d.get("inner", []):
            if c.get("kind") == "CXXCtorInitializer":
                ex = [x for x in c.get("inner", []) if x.get("kind")][-1]
                if "anyInit" in c:
                    inits[c["anyInit"]["name"]] = ex
                elif "delegatingInit" in c:
                    deleg = ex
                else:
                    self.unsup("base initializer")
        if deleg is not None:
            c, _ = self.ex(deleg)
            self.emit("let ref %s = %s in" % (th, c))
        else:
            vals = []
            for f, ft in fields:
                if f in inits:
                    e = inits[f]
                    if e["kind"] == "CXXDefaultInitExpr":
                        fd = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl" and c["name"] == f][0]
                        ii = [x for x in fd.get("inner", []) if x.get("kind")]
                        e = ii[-1]
                    c, ct = self.ex(e)
                    v = self.coerce(c, ct, ft) if ct is not None else c
                    vals.append("%s = %s" % (self.fieldname(t, f), self.bind(v)))
                else:
                    vals.append("%s = %s" % (self.fieldname(t, f), self.anyval(ft)))
            self.emit("let ref %s = { %s } in" % (th, "; ".join(vals)))
        self.mutvars.add(th)
        self.env["this"] = ("path", Path(th, (), t))
        body = [c for c in d.get("inner", []) if c.get("kind") == "CompoundStmt"]
        if body and body[0].get("inner"):
            if self.has_return(body[0]):
                self.unsup("return in inlined constructor") if self.inl_depth else None
            self.retmode = ("ctor", th)
            self.stmt(body[0])

    def has_return(self, n):
        if n.get("kind") == "ReturnStmt":
            return True
        if n.get("kind") == "LambdaExpr":
            return False
        return any(self.has_return(c) for c in n.get("inner", []) if c)

    def tail_only(self, body):
        """Returns occur only in tail position."""
        def tail(stmts):
            for s in stmts[:-1]:
                if self.has_return(s):
                    return False
            if not stmts:
                return True
            l = stmts[-1]
            if l["kind"] == "ReturnStmt":
                return True
            if l["kind"] == "CompoundStmt":
                return tail(l.get("inner", []))
            if l["kind"] == "IfStmt":
                inn = [c for c in l["inner"] if c.get("kind")]
                bs = inn[1:]
                return len(bs) == 2 and all(tail([b]) and self.always_returns(b) for b in bs) or not self.has_return(l)
            return not self.has_return(l)
        return tail([body])

    def always_returns(self, s):
        if s["kind"] == "ReturnStmt":
            return True
        if s["kind"] == "CompoundStmt":
            return bool(s.get("inner")) and self.always_returns(s["inner"][-1])
        if s["kind"] == "IfStmt":
            inn = [c for c in s["inner"] if c.get("kind")]
            return len(inn) == 3 and all(self.always_returns(b) for b in inn[1:])
        return False

    def inline(self, d, key, recvn, args, recv, n):
        """A helper without contract: its body is translated in place."""
        dd = self.u.funcs.get(key) or d
        body = [c for c in dd.get("inner", []) if c.get("kind") == "CompoundStmt"]
        if not body:
            self.unsup("no contract and no body for %s" % key)
        if self.inl_depth > 5:
            self.unsup("inline depth at %s" % key)
        self.inlined.append(key)
        params = [c for c in dd.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        newenv = {}
        if recvn is not None:
            p = recv if recv is not None else self.lvx_this(recvn)
            newenv["this"] = ("path", p)
        nodes = args[:len(params)]
        for i, (a, pd) in enumerate(zip(nodes, params)):
            pt = parse_ty(self.u.ptype(pd))
            isref = pt.ref
            if isref and not pt.const and not self.u.ptype(pd).rstrip().endswith("&&"):
                newenv[pd["id"]] = ("path", self.lv(a))
                self.lognew(pd)
            elif pt.k == "other" and False:
                pass
            else:
                if self.maybe_iter(pd):
                    newenv[pd["id"]] = ("iter", self.iter_of(self.strip(a)))
                    continue
                if self.strip(a)["kind"] == "LambdaExpr":
                    newenv[pd["id"]] = ("lambda", self.strip(a))
                    continue
                c, ct = self.ex(a) if a["kind"] != "CXXDefaultArgExpr" else self.default_arg(pd)
                if ct is not None and ct.k != pt.k:
                    c = self.coerce(c, ct, pt)
                nm = self.localname(pd)
                newenv[pd["id"]] = ("val", nm, c, pt)
        for pid, e in list(newenv.items()):
            if e[0] == "val":
                self.emit("let ref %s = %s in" % (e[1], e[2]))
                self.mutvars.add(e[1])
                newenv[pid] = ("path", Path(e[1], (), e[3]))
        saved = self.env, self.retmode, self.loopctx
        self.env = {k: v for k, v in self.env.items() if k != "this"}
        self.env.update(newenv)
        self.loopctx = None
        self.inl_depth += 1
        rt = self.ret_ty(dd)
        try:
            res = self.inline_body(body[0], rt)
        finally:
            self.env, self.retmode, self.loopctx = saved
            self.inl_depth -= 1
        if rt.ref and res is not None and isinstance(res, Path):
            return self.read(res), rt
        return (res if res is not None else "()"), rt

    def lvx_this(self, recvn):
        s = self.strip(recvn)
        while s["kind"] == "ImplicitCastExpr":
            s = self.strip(s["inner"][0])
        if s["kind"] == "CXXThisExpr":
            return self.this_path()
        return self.lvx(recvn)

    def inline_body(self, body, rt):
        stmts = [c for c in body.get("inner", []) if c.get("kind")]
        # straight-line body with one trailing return: no exception needed
        if stmts and stmts[-1]["kind"] == "ReturnStmt" and not any(self.has_return(s) for s in stmts[:-1]):
            for s in stmts[:-1]:
                self.stmt(s)
            inner = [c for c in stmts[-1].get("inner", []) if c.get("kind")]
            if not inner or rt.k == "void":
                return None
            if rt.ref and not rt.const:
                self.lv(inner[0])
                return None
            c, t = self.ex(inner[0])
            return self.bind(self.coerce(c, t, rt) if t.k != rt.k else c)
        if not any(self.has_return(s) for s in stmts):
            for s in stmts:
                self.stmt(s)
            return None
        exn = "Ret_%d" % self.next()
        valued = rt.k != "void" and not (rt.ref and not rt.const)
        blk = self.block(lambda: self._inl(body, exn, valued, rt))
        v = self.fresh("ret")
        ety = self.wty(rt) if valued else ""
        if valued:
            self.emit("let %s = (exception %s %s in try %s %s with %s r -> r end) in" % (v, exn, ety, " ".join(blk), "absurd", exn))
            return v
        self.emit("(exception %s in try %s () with %s -> () end);" % (exn, " ".join(blk), exn))
        return None

    def _inl(self, body, exn, valued, rt):
        self.retmode = ("exn", exn, valued, rt)
        self.stmt(body)

    def next(self):
        self.tmp += 1
        return self.tmp

    def ff_call(self, d, key, name, args, n, member):
        own = self.u.owner(d)
        ow = own["name"] if own is not None else None
        ts = [self.ty(self.strip(a)) for a in args if a.get("kind")]

        def isff(t):
            return t.k == "obj" and t.name == "FFInt"
        F = Ty("obj", name="FFInt")
        if name.startswith("operator") and args and (ow == "FFInt" or (ow is None and key.endswith("(FFInt,FFInt)"))):
            op = name[8:]
            if len(args) == 1:
                c, t = self.ex(args[0])
                if op == "-":
                    return "(fneg %s)" % c, F
                if op == "+":
                    return c, F
                if op == "!":
                    return "(feq %s fzero)" % c, Ty("bool")
                self.unsup("FFInt " + op)
            vals = self.args_ordered(args)
            (a, ta), (b, tb) = vals
            a, b = self.coerce(a, ta, F), self.coerce(b, tb, F)
            if op in "+-*/" and len(op) == 1:
                return "(%s %s %s)" % ({"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op], a, b), F
            if op == "==":
                return "(feq %s %s)" % (a, b), Ty("bool")
            if op == "!=":
                return "(not (feq %s %s))" % (a, b), Ty("bool")
            if op in ("<", ">", "<=", ">="):
                return "(fto %s %s fto %s)" % (a, op, b), Ty("bool")
            if op in ("+=", "-=", "*=", "/="):
                p = self.opassign(n)
                return self.read(p), p.ty
        if name == "pow" and args and len(args) == 2 and isff(ts[0]):
            (a, ta), (b, tb) = self.args_ordered(args)
            if tb.k in RANGE:
                return "(fpow %s %s)" % (a, b), F
            return "(fpowff %s %s)" % (a, b), F
        if ow == "FFInt" and name == "to_neg_int":
            c, _ = self.ex(args[0])
            return "(fnegint %s)" % c, Ty("i32")
        if ow == "FFInt":
            self.unsup("FFInt::" + name)
        return None

    def call_lambda(self, n, args):
        f = self.strip(args[0])
        if f["kind"] == "DeclRefExpr":
            e = self.env.get(f["referencedDecl"]["id"])
            if e is not None and e[0] == "lambda":
                lam = e[1]
                return self.inline_lambda(lam, args[1:])
        if f["kind"] == "LambdaExpr":
            return self.inline_lambda(f, args[1:])
        self.unsup("call of a function object")

    def inline_lambda(self, lam, args):
        meth = None
        rec = lam["inner"][0]
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                meth = c
        if meth is None:
            self.unsup("lambda")
        body = [c for c in lam["inner"] if c.get("kind") == "CompoundStmt"][-1]
        params = [c for c in meth.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        newenv = dict(self.env)
        for a, pd in zip(args, params):
            pt = parse_ty(self.u.ptype(pd))
            if isinstance(a, tuple):
                newenv[pd["id"]] = a
            elif pt.ref and not pt.const:
                newenv[pd["id"]] = ("path", self.lv(a))
            else:
                c, ct = self.ex(a)
                if ct.k != pt.k:
                    c = self.coerce(c, ct, pt)
                nm = self.localname(pd)
                self.emit("let ref %s = %s in" % (nm, c))
                self.mutvars.add(nm)
                newenv[pd["id"]] = ("path", Path(nm, (), pt))
        saved = self.env, self.retmode, self.loopctx
        self.env, self.loopctx = newenv, None
        rt = self.ret_ty(meth)
        try:
            res = self.inline_body(body, rt)
        finally:
            self.env, self.retmode, self.loopctx = saved
        return (res if res is not None else "()"), rt

    # ------------------------------------------------------------ statements
    def note_throw(self):
        self.throws_used = True

    def throw(self):
        self.throws_used = True
        if self.spec_throws is None:
            self.emit("throw_not_allowed ();")
        else:
            self.emit("raise Cxx_throw;")

    LOGN = ("INFO_MSG", "ERROR_MSG", "WARNING_MSG")

    def is_log(self, n):
        s = self.strip(n)
        if s["kind"] == "CXXOperatorCallExpr":
            cal = self.callee(s)
            if cal.get("name") == "operator<<":
                t = self.ty(s)
                return True
        if s["kind"] == "CallExpr":
            nm = self.callee(s).get("name")
            if nm in self.LOGN or nm in ("firefly_exists",):
                return True
        if s["kind"] == "CXXMemberCallExpr":
            m = self.strip(s["inner"][0])
            if m.get("name") in ("flush", "close_logger"):
                return True
        return False

    def stmt(self, n):
        k = n.get("kind")
        if k is None or k == "NullStmt":
            return
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        # expression statement
        if self.is_log(n):
            self.dropped.append("output/log statement")
            return
        s = self.strip(n)
        if s["kind"] in ("CXXFunctionalCastExpr", "CXXTemporaryObjectExpr") and re.match(r"^(std::)?\w*(error|out_of_range|invalid_argument)$", s.get("type", {}).get("qualType", "")):
            self.dropped.append("exception object that is not thrown")
            return
        if s["kind"] == "CXXThrowExpr":
            self.throw()
            self.emit("absurd_after_throw ();") if False else None
            return
        if s.get("valueCategory") == "lvalue" and s["kind"] in ("CXXOperatorCallExpr", "CompoundAssignOperator", "BinaryOperator", "UnaryOperator"):
            self.lv(s)
            return
        if s["kind"] == "CXXMemberCallExpr":
            mm = self.strip(s["inner"][0])
        c, t = self.ex(s)
        if c not in ("()",) and not re.match(r"^[\w.]+$", c) and ("vget" in c or "mget" in c):
            self.emit("let _ = %s in" % c)

    def s_CompoundStmt(self, n):
        for c in n.get("inner", []):
            self.stmt(c)

    def scoped(self, n):
        """Translate statement n as a closed unit-typed block."""
        before = set(self.env)
        def go():
            self.stmt(n)
            if n.get("_leafend"):
                self.emit(n["_leafend"])
        blk = self.block(go)
        for k in [k for k in self.env if k not in before]:
            del self.env[k]
        return "begin " + "\n".join(blk) + " () end" if True else ""

    def s_IfStmt(self, n):
        inn = [c for c in n["inner"] if c.get("kind")]
        if n.get("hasInit") or n.get("hasVar"):
            self.unsup("if with initializer")
        c, ct = self.ex(inn[0])
        a = self.scoped(inn[1])
        if len(inn) > 2:
            b = self.scoped(inn[2])
            self.emit("if %s then %s else %s;" % (c, a, b))
        else:
            self.emit("if %s then %s;" % (c, a))
        if n.get("_leaf"):
            self.emit(n["_leaf"])

    def mark_leaves(self, n, text):
        """The hint goes to the end of each branch of the last conditional of n, and behind it; tells whether there is one."""
        if n["kind"] == "IfStmt":
            n["_leaf"] = text
            for b in [c for c in n["inner"] if c.get("kind")][1:]:
                if not self.mark_leaves(b, text):
                    b["_leafend"] = text
            return True
        if n["kind"] == "CompoundStmt":
            for c in reversed(n.get("inner", [])):
                if c["kind"] in ("CompoundStmt", "IfStmt"):
                    return self.mark_leaves(c, text)
                if c["kind"] not in ("UnaryOperator", "BinaryOperator", "NullStmt"):
                    return False
        return False

    def localname(self, d):
        nm = self.rename_locals.get(len(self.local_log), self.whyname(d["name"])) if d.get("name") else self.fresh("anon")
        self.local_log.append((d.get("name", ""), short_ty(self.u.ptype(d))))
        # a name that is still in scope is never shadowed: paths and pending code may mention it
        base, k = nm, 1
        while any(self.entry_base(e) == nm for e in self.env.values()):
            k += 1
            nm = "%s_v%d" % (base, k)
        return nm

    def entry_base(self, e):
        if e[0] in ("path", "ptr"):
            return e[1].base
        if e[0] == "iter":
            return e[1].path.base if getattr(e[1], "path", None) is not None else None
        return None

    def lognew(self, d):
        self.local_log.append((d.get("name", ""), short_ty(self.u.ptype(d))))

    def s_DeclStmt(self, n):
        for d in n["inner"]:
            if d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl"):
                continue
            if d["kind"] != "VarDecl":
                self.unsup("declaration", d)
            self.vardecl(d)

    def vardecl(self, d):
        t = parse_ty(self.u.ptype(d))
        init = [c for c in d.get("inner", []) if c.get("kind")]
        if re.match(r"^(const )?std::(lock_guard|unique_lock|scoped_lock)<", d.get("type", {}).get("qualType", "")):
            self.dropped.append("mutex lock (sequential reading)")
            return
        if d.get("storageClass") == "static":
            self.unsup("static local")
        if self.maybe_iter(d) and init:
            iv = self.iter_of(self.strip(init[-1]))
            if iv is None:
                self.unsup("iterator variable")
            self.lognew(d)
            self.env[d["id"]] = ("iter", iv)
            return
        if init and self.strip(init[-1])["kind"] == "LambdaExpr":
            self.env[d["id"]] = ("lambda", self.strip(init[-1]))
            return
        if t.ref:
            p = self.lvx(init[-1])
            p = self.freeze(p)
            self.lognew(d)
            self.env[d["id"]] = ("path", p)
            return
        if t.k == "ptr":
            e = self.strip(init[-1])
            if e["kind"] == "UnaryOperator" and e["opcode"] == "&":
                self.lognew(d)
                q = self.freeze(self.lv(e["inner"][0]))
                self.emit("let _ = %s in" % self.read(q))
                self.env[d["id"]] = ("ptr", q)
                return
            if e["kind"] == "CXXNewExpr" and e.get("isArray") and t.a:
                # an owned array: a sequence of default-constructed elements; delete[] leaves none
                sz = [c for c in e.get("inner", []) if c.get("kind")][0]
                c, _ = self.ex(sz)
                nm = self.localname(d)
                self.emit("let ref %s = (vmake %s %s) in" % (nm, c, self.default(t.a[0])))
                self.mutvars.add(nm)
                self.env[d["id"]] = ("path", Path(nm, (), Ty("vec", [t.a[0]])))
                return
            self.unsup("pointer variable")
        if init:
            if t.k in ("vec", "map", "arr") and self.strip(init[-1])["kind"] == "InitListExpr":
                c, ct = self.x_InitListExpr(dict(self.strip(init[-1]), type=d["type"]))
            else:
                c, ct = self.ex(init[-1])
            if ct is not None and t.k != ct.k:
                if ct.k in ("vec", "arr") and t.k in ("vec", "arr"):
                    pass
                else:
                    c = self.coerce(c, ct, t)
        else:
            c = self.anyval(t)
        nm = self.localname(d)
        self.emit("let ref %s = %s in" % (nm, c))
        self.mutvars.add(nm)
        self.env[d["id"]] = ("path", Path(nm, (), t))

    def freeze(self, p):
        acc = []
        for kind, a in p.acc:
            if kind in ("i", "k"):
                if not re.match(r"^\d+$", a):
                    v = self.fresh("ix")
                    self.emit("let %s = %s in" % (v, a))
                    a = v
            acc.append((kind, a))
        return Path(p.base, acc, p.ty, p.immut)

    def s_ReturnStmt(self, n):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        rm = self.retmode
        if rm[0] == "top":
            rt = rm[1]
            if self.exit_ghost:
                self.emit(self.exit_ghost)
            if rt.k == "void" or not inner:
                self.emit("return ();")
                return
            if rt.ref and not rt.const:
                p = self.lv(inner[0])
                self.emit("return ();")
                return
            c, t = self.ex(inner[0])
            if t.k != rt.k:
                c = self.coerce(c, t, rt)
            self.emit("return %s;" % (c if self.closed("(" + c + ")") and (re.match(r"^[\w.]+$", c) or (c[0] in "({" and self.closed(c))) else "(%s)" % c))
            return
        if rm[0] == "exn":
            _, exn, valued, rt = rm
            if not valued:
                if inner:
                    self.lv(inner[0])
                self.emit("raise %s;" % exn)
                return
            c, t = self.ex(inner[0])
            if t.k != rt.k:
                c = self.coerce(c, t, rt)
            self.emit("raise %s (%s);" % (exn, c))
            return
        if rm[0] == "ctor":
            if self.inl_depth:
                self.unsup("return in inlined constructor")
            self.emit("return %s;" % rm[1])
            return
        self.unsup("return")

    def s_CXXThrowExpr(self, n):
        self.throw()

    # -- loops
    def loop_spec(self):
        k = self.loopno
        self.loopno += 1
        ls = self.fspec.loops.get(k, Loop())
        if getattr(self, "aliases", None):
            def al(x, old):
                for a, b in self.aliases.items():
                    x = re.sub(r"\b%s\b" % a, "(old %s)" % b if old else self.alias_ghost[a], x)
                return x
            ls = Loop([al(x, True) for x in ls.inv], al(ls.variant, False) if ls.variant else None, al(ls.before, False), al(ls.begin, False), al(ls.end, False), al(ls.after, False), sp=ls.sp, leaf=al(ls.leaf, False))
        return k, ls

    def contains(self, n, kinds, stop=("WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt", "LambdaExpr", "SwitchStmt")):
        for c in n.get("inner", []):
            if not c or c.get("kind") is None:
                continue
            if c["kind"] in kinds:
                return True
            if c["kind"] in stop and not (c["kind"] == "SwitchStmt" and "ContinueStmt" in kinds):
                continue
            if self.contains(c, kinds, stop):
                return True
        return False

    def mk_loop(self, k, ls, condfn, bodyfn, incfn, auto_inv, auto_var, has_continue, has_break):
        """Assemble a while loop."""
        if ls.before:
            self.emit(ls.before)
        outer = {e[1].base for e in self.env.values() if e and e[0] == "path"} | set(self.globals)
        mods = set()
        self.modstack.append(mods)
        box = []
        cblk = self.block(lambda: box.append(condfn()))
        cond = box[0]
        if cblk:
            cond = "(" + " ".join(cblk) + " " + cond + ")"
        saved = self.loopctx
        self.loopctx = {"cont": ("Cont_%d" % self.next()) if has_continue else None, "brk": True}
        bblk = self.block(bodyfn)
        iblk = self.block(incfn) if incfn else []
        cx = self.loopctx["cont"]
        self.loopctx = saved
        self.modstack.pop()
        for m in self.modstack:
            m |= mods
        inv = []
        for v in sorted(mods):
            t = self.vartype(v)
            if t is not None and v in outer:
                inv += self.wt(t, v)
        inv += auto_inv
        inv += ls.inv
        var = ls.variant or auto_var
        txt = "while %s do\n" % cond
        for i in inv:
            txt += "  invariant { %s }\n" % i
        if var:
            txt += "  variant { %s }\n" % var
        else:
            self.nonterm = True
        body = "\n".join(bblk)
        if cx:
            body = "(exception %s in try %s () with %s -> () end);" % (cx, body, cx)
        else:
            body = "begin %s () end;" % body if iblk or ls.end else body
            if ls.sp and body.startswith("begin"):
                body = "[@vc:sp] " + body
        txt += ((ls.begin + "\n") if ls.begin else "") + body + "\n" + ((ls.end + "\n") if ls.end else "") + " ".join(iblk) + " ()\ndone;"
        self.emit(txt)
        if ls.after:
            self.emit(ls.after)

    def vartype(self, v):
        for e in self.env.values():
            if e[0] == "path" and e[1].base == v and not e[1].acc:
                return e[1].ty
        if v in self.globals:
            return self.globals[v]
        return None

    def s_WhileStmt(self, n):
        inn = [c for c in n["inner"] if c.get("kind")]
        k, ls = self.loop_spec()
        self.mk_loop(k, ls, lambda: self.ex(inn[0])[0], lambda: self.stmt(inn[1]), None, [], None,
                     self.contains(inn[1], ("ContinueStmt",)) or inn[1]["kind"] == "ContinueStmt", False)

    def s_DoStmt(self, n):
        inn = [c for c in n["inner"] if c.get("kind")]
        fin = self.strip(inn[1])
        if fin.get("kind") == "CXXBoolLiteralExpr" and not fin.get("value") and not self.contains(dict(inner=[inn[0]]), ("BreakStmt",)) and not self.contains(dict(inner=[inn[0]]), ("ContinueStmt",)):
            return self.stmt(inn[0])  # do { ... } while (false), the usual macro wrapper
        k, ls = self.loop_spec()
        go = "again_%d" % k
        self.emit("let ref %s = true in" % go)
        self.mutvars.add(go)

        def inc():
            c = self.ex(inn[1])[0]
            self.emit("%s <- %s;" % (go, c))
        self.mk_loop(k, ls, lambda: go, lambda: self.stmt(inn[0]), inc, [], None,
                     self.contains(inn[0], ("ContinueStmt",)), False)

    def s_ForStmt(self, n):
        inn = n["inner"]
        init, cvar, cond, inc, body = inn
        k, ls = self.loop_spec()

        def whole():
            if init.get("kind"):
                self.stmt(init)
            av = self.auto_variant(cond, inc)
            self.mk_loop(k, ls, (lambda: self.ex(cond)[0]) if cond.get("kind") else (lambda: "true"), lambda: self.stmt(body),
                         (lambda: self.stmt(inc)) if inc.get("kind") else None, [], av,
                         self.contains(body, ("ContinueStmt",)) or body["kind"] == "ContinueStmt", False)
        before = set(self.env)
        blk = self.block(whole)
        for q in [q for q in self.env if q not in before]:
            del self.env[q]
        self.emit("begin " + "\n".join(blk) + " () end;")

    def auto_variant(self, cond, inc):
        """Guess `bound - i` for the usual counting loops (only a termination measure: proved, not trusted)."""
        try:
            c = self.strip(cond)
            i = self.strip(inc)
            if c["kind"] == "BinaryOperator" and c["opcode"] in ("<", "!=", ">", ">=", "<="):
                save = self.out
                self.out = []
                a, ta = self.ex(c["inner"][0])
                b, tb = self.ex(c["inner"][1])
                junk = self.out
                self.out = save
                if junk:
                    return None
                a, b = self.speccode(a), self.speccode(b)
                if i["kind"] == "UnaryOperator":
                    if i["opcode"] == "++":
                        return "%s - %s" % (b, a)
                    if i["opcode"] == "--":
                        return "%s - %s" % (a, b)
        except (ExtractError, KeyError):
            pass
        return None

    def speccode(self, c):
        c = re.sub(r"\bu64_(add|sub|mul)\b", lambda m: "l_u64_" + m.group(1), c)
        if re.search(r"\b(vget|mget|[iu]\d+_(add|sub|mul|div|rem|neg|shr|low)|mpz_t)", c.replace("l_u64_", "")) or "l_u64" in c:
            raise ExtractError("not a spec term")
        return c

    def s_CXXForRangeStmt(self, n):
        inn = n["inner"]
        # children: init?, range decl, begin decl, end decl, cond, inc, loop var, body
        k, ls = self.loop_spec()
        rng = None
        lv = None
        for c in inn:
            if c and c.get("kind") == "DeclStmt":
                v = c["inner"][0]
                if v.get("name", "").startswith("__range"):
                    rng = v
                elif not v.get("name", "").startswith("__"):
                    lv = v
        body = inn[-1]
        if ls.leaf:
            self.mark_leaves(body, ls.leaf)
        if rng is None or lv is None:
            self.unsup("range for")
        src = [c for c in rng["inner"] if c.get("kind")][-1]

        def whole():
            p = self.freeze(self.lvx(src))
            idx = "idx%d" % k
            lt = parse_ty(self.u.ptype(lv))
            if p.ty.k in ("vec", "arr", "list", "deque"):
                self.emit("let ref %s = 0 in" % idx)
                self.mutvars.add(idx)
                rd = self.read(p)
                srd = self.specread(p)
                ip = Path(p.base, p.acc + (("i", idx),), p.ty.a[0], p.immut)

                def bodyfn():
                    ix = "ix%d" % k
                    self.emit("let %s = %s in" % (ix, idx))
                    self.bindloopvar(lv, lt, Path(p.base, p.acc + (("i", ix),), p.ty.a[0], p.immut))
                    self.stmt(body)

                def inc():
                    self.emit("%s <- %s + 1;" % (idx, idx))
                self.mk_loop(k, ls, lambda: "%s < length %s" % (idx, rd), bodyfn, inc,
                             ["0 <= %s <= length %s" % (idx, srd)], "length %s - %s" % (srd, idx),
                             self.contains(body, ("ContinueStmt",)), False)
            elif p.ty.k == "map":
                ks = "keys%d" % k
                self.emit("let %s = any_enum %s in" % (ks, self.read(p)))
                self.emit("let ref %s = 0 in" % idx)
                self.mutvars.add(idx)

                def bodyfn():
                    kv = "key%d" % k
                    self.emit("let %s = vget %s %s in" % (kv, ks, idx))
                    self.env[lv["id"]] = None
                    self.bindmapvar(lv, lt, p, kv)
                    self.stmt(body)

                def inc():
                    self.emit("%s <- %s + 1;" % (idx, idx))
                srd = self.specread(p)
                self.mk_loop(k, ls, lambda: "%s < length %s" % (idx, ks), bodyfn, inc,
                             ["0 <= %s <= length %s" % (idx, ks)], "length %s - %s" % (ks, idx),
                             self.contains(body, ("ContinueStmt",)), False)
            elif p.ty.k == "str" and self.opts.get("strseq"):
                idx = "idx%d" % k
                self.emit("let ref %s = 0 in" % idx)
                self.mutvars.add(idx)
                rd, srd = self.read(p), self.specread(p)

                def bodyfn():
                    nm = self.localname(lv)
                    if lt.ref:
                        self.unsup("reference to a character")
                    self.emit("let ref %s = s_get %s %s in" % (nm, rd, idx))
                    self.mutvars.add(nm)
                    self.env[lv["id"]] = ("path", Path(nm, (), lt))
                    self.stmt(body)

                def inc():
                    self.emit("%s <- %s + 1;" % (idx, idx))
                self.mk_loop(k, ls, lambda: "%s < length %s" % (idx, rd), bodyfn, inc,
                             ["0 <= %s <= length %s" % (idx, srd)], "length %s - %s" % (srd, idx),
                             self.contains(body, ("ContinueStmt",)), False)
            else:
                self.unsup("range for over %r" % (p.ty,))
        before = set(self.env)
        blk = self.block(whole)
        for q in [q for q in self.env if q not in before]:
            del self.env[q]
        self.emit("begin " + "\n".join(blk) + " () end;")

    def specread(self, p):
        c = p.base
        for kind, a in p.acc:
            if kind == "f":
                c = "%s.%s" % (c, a) if re.match(r"^[\w.\[\]]+$", c) else "(%s).%s" % (c, a)
            elif kind == "i":
                c = "%s[%s]" % (c, a)
            elif kind == "k":
                c = "(fget %s %s)" % (c, a)
        return c

    def bindloopvar(self, lv, lt, p):
        if lt.ref:
            self.lognew(lv)
            self.emit("let _ = %s in" % self.read(p))
            self.env[lv["id"]] = ("path", p)
        else:
            nm = self.localname(lv)
            self.emit("let ref %s = %s in" % (nm, self.read(p)))
            self.mutvars.add(nm)
            self.env[lv["id"]] = ("path", Path(nm, (), p.ty))

    def bindmapvar(self, lv, lt, p, kv):
        if lt.ref:
            self.lognew(lv)
            self.env[lv["id"]] = ("iter", IterVal(p, "true", kv))
            self.env[lv["id"]] = ("mapel", IterVal(p, "true", kv))
            self.env[lv["id"]] = ("iter", IterVal(p, "true", kv))
        else:
            nm = self.localname(lv)
            self.emit("let ref %s = { first = %s; second = %s } in" % (nm, kv, self.read(Path(p.base, p.acc + (("k", kv),)))))
            self.mutvars.add(nm)
            self.env[lv["id"]] = ("path", Path(nm, (), Ty("pair", p.ty.a)))

    def s_BreakStmt(self, n):
        if self.loopctx is None:
            self.unsup("break outside loop")
        if self.loopctx.get("switch"):
            self.emit("raise %s;" % self.loopctx["switch"])
            return
        # a break from within a `try .. continue` body must leave the loop itself
        if self.loopctx.get("cont"):
            self.emit("break;")
        else:
            self.emit("break;")

    def s_ContinueStmt(self, n):
        ctx = self.loopctx
        while ctx is not None and ctx.get("switch"):
            ctx = ctx.get("outer")
        if ctx is None:
            self.unsup("continue outside loop")
        if ctx["cont"] is None:
            self.unsup("continue")
        self.emit("raise %s;" % ctx["cont"])

    def s_SwitchStmt(self, n):
        inn = [c for c in n["inner"] if c.get("kind")]
        c, t = self.ex(inn[0])
        v = self.bind(c, "sw") if not re.match(r"^\w+$", c) else c
        v2 = self.fresh("sw")
        self.emit("let %s = %s in" % (v2, v))
        body = inn[-1]
        # flatten to (labels, stmts) groups
        groups = []
        cur = None

        def add(s):
            nonlocal cur
            if s["kind"] in ("CaseStmt", "DefaultStmt"):
                labs = []
                while s["kind"] in ("CaseStmt", "DefaultStmt"):
                    i = [c for c in s["inner"] if c.get("kind")]
                    if s["kind"] == "CaseStmt":
                        labs.append(self.ex(i[0])[0])
                    else:
                        labs.append(None)
                    s = i[-1]
                cur = [labs, []]
                groups.append(cur)
                add(s)
            else:
                if cur is None:
                    self.unsup("statement before first case")
                cur[1].append(s)
        for s in body.get("inner", []):
            add(s)
        # every group must end in break/return/throw (no fall-through), except empty ones merged with the next
        merged = []
        pend = []
        for labs, ss in groups:
            ss = [x for x in ss if x["kind"] != "NullStmt"]
            if not ss:
                pend += labs
                continue
            merged.append((pend + labs, ss))
            pend = []
        if pend:
            merged.append((pend, []))
        alllabs = [l for labs, _ in merged for l in labs if l is not None]
        code = ""
        default = None
        parts = []
        for labs, ss in merged:
            last = ss[-1] if ss else None
            core = ss
            if last is not None:
                flat = last
                if last["kind"] == "BreakStmt":
                    core = ss[:-1]
                elif last["kind"] == "CompoundStmt" and last.get("inner") and last["inner"][-1]["kind"] == "BreakStmt":
                    core = ss[:-1] + [dict(last, inner=last["inner"][:-1])]
                elif last["kind"] == "ReturnStmt" or self.always_returns(last):
                    core = ss
                elif (labs, ss) != merged[-1]:
                    self.unsup("switch fall-through")
            ex = "Sw_%d" % self.next()
            inner_break = any(self.contains(dict(inner=[s]), ("BreakStmt",), ("WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt", "LambdaExpr", "SwitchStmt")) for s in core)
            saved = self.loopctx
            self.loopctx = {"switch": ex, "outer": saved, "cont": None}

            def run(core=core):
                for s in core:
                    self.stmt(s)
            blk = self.block(run)
            self.loopctx = saved
            b = "begin " + "\n".join(blk) + " () end"
            if inner_break:
                b = "(exception %s in try %s with %s -> () end)" % (ex, b, ex)
            if None in labs:
                default = b
            parts.append((labs, b))
        txt = ""
        for labs, b in parts:
            if None in labs:
                continue
            txt += "if %s then %s else " % (" || ".join("%s = %s" % (v2, l) for l in labs), b)
        txt += (default or "()") + ";"
        self.emit(txt)

    # ------------------------------------------------------------ functions
    def function(self, spec, decl, alias=None):
        """Translate one function with its contract. Returns WhyML text of the definition."""
        self.fspec = spec
        self.spec_throws = spec.throws
        self.throws_used = False
        self.env = {}
        self.mutvars = set()
        self.out = []
        self.loopno = 0
        self.local_log = []
        self.loopctx = None
        self.nonterm = False
        self.exit_ghost = spec.exit
        self.cur_inline = set(spec.inline)
        d = decl
        params = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        isctor = d["kind"] == "CXXConstructorDecl"
        static = d.get("storageClass") == "static" or (d["kind"] == "CXXMethodDecl" and any(
            self.u.decl.get(d.get("previousDecl", ""), {}).get("storageClass") == "static" for _ in (0,)))
        ismeth = d["kind"] == "CXXMethodDecl" and not static
        own = self.u.owner(d)
        isconst = " const" in d["type"]["qualType"].split(")")[-1]
        hdr = []
        req = []
        pre = []
        names = list(spec.params)
        if ismeth:
            ot = parse_ty(own["name"])
            if own["kind"] == "ClassTemplateSpecializationDecl":
                ot = Ty("obj", [Ty("lit", name="N")], name=own["name"])
            w = self.wty(ot)
            if isconst:
                hdr.append("(this : %s)" % w)
                self.env["this"] = ("path", Path("this", (), ot, True))
            else:
                hdr.append("(ref this : %s)" % w)
                self.env["this"] = ("path", Path("this", (), ot))
                self.mutvars.add("this")
            req += self.wt(ot, "this")
            self.this_ty = ot
        if len(names) != len(params):
            names = names + [None] * (len(params) - len(names))
        for pd, nm in zip(params, names):
            pt = parse_ty(self.u.ptype(pd))
            nm = nm or self.whyname(pd.get("name", "unused_%d" % self.next()))
            mutref = pt.ref and not pt.const and not self.u.ptype(pd).rstrip().endswith("&&")
            if alias is not None and nm in alias:
                tgt = alias[nm]
                if isinstance(tgt, tuple):          # a part of another object: (base, accessors, text)
                    self.env[pd["id"]] = ("path", Path(tgt[0], tgt[1], pt))
                    tgt = tgt[2]
                else:
                    self.env[pd["id"]] = ("path", Path(tgt, (), pt))
                self.aliases[nm] = tgt
                self.alias_ghost[nm] = alias[nm][3] if isinstance(alias[nm], tuple) and len(alias[nm]) > 3 else tgt
                continue
            if pt.k == "other" and not pd.get("name"):
                hdr.append("(%s : int)" % nm)
                continue
            hdr.append("(%s%s : %s)" % ("ref " if mutref else "", nm, self.wty(pt)))
            req += self.wt(pt, nm)
            self.local_log.append((pd.get("name", ""), short_ty(self.u.ptype(pd)))) if False else None
            if mutref:
                self.env[pd["id"]] = ("path", Path(nm, (), pt))
                self.mutvars.add(nm)
            elif pt.ref:
                self.env[pd["id"]] = ("path", Path(nm, (), pt, True))
            else:
                if self.assigned(d, pd["id"]):
                    pre.append("let init_%s = %s in" % (nm, nm))
                    pre.append("let ref %s = %s in" % (nm, nm))
                    self.mutvars.add(nm)
                    self.env[pd["id"]] = ("path", Path(nm, (), pt))
                else:
                    self.env[pd["id"]] = ("path", Path(nm, (), pt, True))
        if not hdr:
            hdr.append("()")
        rt = parse_ty(own["name"]) if isctor else self.ret_ty(d)
        if isctor and own["kind"] == "ClassTemplateSpecializationDecl":
            rt = Ty("obj", [Ty("lit", name="N")], name=own["name"])
        body = [c for c in d.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt")][0]
        voidish = rt.k == "void" or (rt.ref and not rt.const and not isctor)
        for x in pre:
            self.emit(x)
        if spec.entry:
            self.emit(spec.entry)
        if isctor:
            self.retmode = ("ctor", "this")
            self.ctor_body(d, rt, "this")
            if self.exit_ghost:
                self.emit(self.exit_ghost)
            final = "this"
        else:
            self.retmode = ("top", rt)
            stmts = [c for c in body.get("inner", []) if c.get("kind")]
            last = stmts[-1] if stmts else None
            final = None
            if last is not None and last["kind"] == "ReturnStmt":
                for s in stmts[:-1]:
                    self.stmt(s)
                inner = [c for c in last.get("inner", []) if c.get("kind")]
                if voidish:
                    if inner:
                        self.lv(inner[0])
                    final = "()"
                else:
                    c, t = self.ex(inner[0])
                    final = self.coerce(c, t, rt) if t.k != rt.k else c
                if self.exit_ghost:
                    self.emit(self.exit_ghost)
            else:
                for s in stmts:
                    self.stmt(s)
                if voidish:
                    if self.exit_ghost:
                        self.emit(self.exit_ghost)
                    final = "()"
                else:
                    final = "absurd"
        why_rt = "unit" if voidish else self.wty(rt)
        greq = []
        for g, t in sorted(self.globals.items()):
            greq += self.wt(t, g)
        txt = "let %s %s : %s\n" % (("rec " if self.isrec(d, spec) else "") + spec.mangled + ("_aliased" if alias else ""), " ".join(hdr), why_rt)
        txt += self.contract(spec, greq + req, rt if not voidish else None, body=True, alias=alias)
        txt += "=\n" + "\n".join(self.out) + "\n" + final + "\n"
        return txt

    def isrec(self, d, spec):
        return spec in self.used

    def assigned(self, d, pid):
        found = []

        def walk(n, inlv):
            k = n.get("kind")
            if k is None:
                return
            if k == "DeclRefExpr" and n.get("referencedDecl", {}).get("id") == pid and inlv:
                found.append(1)
            inner = n.get("inner", [])
            if k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") == "="):
                walk(inner[0], True)
                walk(inner[1], False)
                return
            if k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
                walk(inner[0], True)
                return
            if k == "CXXOperatorCallExpr":
                nm = self.callee(n).get("name", "")
                if nm in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator%=", "operator++", "operator--", "operator[]"):
                    walk(inner[1], True)
                    for c in inner[2:]:
                        walk(c, False)
                    return
            if k == "CXXMemberCallExpr":
                m = self.strip(inner[0])
                if m.get("kind") == "MemberExpr":
                    walk(m["inner"][0], True)
                for c in inner[1:]:
                    walk(c, True)
                return
            if k == "CallExpr":
                for c in inner[1:]:
                    walk(c, n_is_lv(c))
                return
            for c in inner:
                walk(c, inlv if k in ("ImplicitCastExpr", "ParenExpr", "MemberExpr", "ArraySubscriptExpr") and not (
                    k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue") else False)

        def n_is_lv(c):
            return c.get("valueCategory") == "lvalue"
        walk(dict(kind="X", inner=d.get("inner", [])), False)
        return bool(found)

    def contract(self, spec, auto_req, rt, body, alias=None):
        def al(s):
            if alias:
                for a, b in alias.items():
                    b = b[2] if isinstance(b, tuple) else b
                    s = re.sub(r"\b%s\b" % a, lambda _: "(old %s)" % b, s)
            return s

        def alr(s):
            if alias:
                for a, b in alias.items():
                    b = b[2] if isinstance(b, tuple) else b
                    s = re.sub(r"\b%s\b" % a, lambda _: b, s)
            return s
        txt = ""
        for r in auto_req:
            txt += "  requires { %s }\n" % r
        for r in spec.requires:
            txt += "  requires { %s }\n" % alr(r)
        for e in spec.ensures:
            txt += "  ensures { %s }\n" % al(e)
        if rt is not None:
            for e in self.wt(rt, "result"):
                txt += "  ensures { %s }\n" % e
        if spec.throws is not None:
            txt += "  raises { Cxx_throw -> %s }\n" % (al(spec.throws) if spec.throws != "" else "true")
        if spec.variant and body:
            txt += "  variant { %s }\n" % spec.variant
        if spec.diverges and body:
            txt += "  diverges\n"
        return txt

    def val_decl(self, spec, decl):
        """Contract of a callee as an abstract declaration (its body is not seen by callers)."""
        d = decl
        params = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        isctor = d["kind"] == "CXXConstructorDecl"
        static = d.get("storageClass") == "static"
        ismeth = d["kind"] == "CXXMethodDecl" and not static
        own = self.u.owner(d)
        isconst = " const" in d["type"]["qualType"].split(")")[-1]
        hdr, req, wr, ens = [], [], [], []
        names = list(spec.params) + [None] * (len(params) - len(spec.params))
        if ismeth:
            ot = parse_ty(own["name"])
            if own["kind"] == "ClassTemplateSpecializationDecl":
                ot = Ty("obj", [Ty("lit", name="N")], name=own["name"])
            hdr.append("(%sthis : %s)" % ("" if isconst else "ref ", self.wty(ot)))
            req += self.wt(ot, "this")
            if not isconst:
                wr.append("this")
                ens += self.wt(ot, "this")
        for pd, nm in zip(params, names):
            pt = parse_ty(self.u.ptype(pd))
            nm = nm or self.whyname(pd.get("name", "unused_%d" % self.next()))
            mutref = pt.ref and not pt.const and not self.u.ptype(pd).rstrip().endswith("&&")
            hdr.append("(%s%s : %s)" % ("ref " if mutref else "", nm, self.wty(pt)))
            req += self.wt(pt, nm)
            if mutref:
                wr.append(nm)
                ens += self.wt(pt, nm)
        rt = parse_ty(own["name"]) if isctor else self.ret_ty(d)
        if isctor and own["kind"] == "ClassTemplateSpecializationDecl":
            rt = Ty("obj", [Ty("lit", name="N")], name=own["name"])
        voidish = rt.k == "void" or (rt.ref and not rt.const and not isctor)
        txt = "val %s %s : %s\n" % (spec.mangled, " ".join(hdr) if hdr else "()", "unit" if voidish else self.wty(rt))
        txt += self.contract(spec, req, None if voidish else rt, body=False)
        for e in ens:
            txt += "  ensures { %s }\n" % e
        wr += spec.writes
        if wr:
            txt += "  writes { %s }\n" % ", ".join(wr)
        if spec.reads:
            txt += "  reads { %s }\n" % ", ".join(spec.reads)
        if spec.diverges:
            txt += "  diverges\n"
        return txt

    def type_decls(self):
        txt, done = "", []

        def deps(t):
            return ([t.name] if t.k == "obj" else []) + sum([deps(a) for a in t.a if isinstance(a, Ty)], [])

        def visit(name):
            if name in done or name not in self.records:
                return
            for f, t in self.records[name]:
                for x in deps(t):
                    if x != name:
                        visit(x)
            done.append(name)
        for name in list(self.records):
            visit(name)
        for name in done:
            fields = self.records[name]
            txt += "type %s = { %s }\n" % (name.lower(), "; ".join("%s_%s : %s" % (name.lower(), f, self.wty(t)) for f, t in fields))
        return txt


def _split(s):
    from cxxast import _split_args
    return _split_args(s)


def parse_short(s):
    """Inverse of short_ty for the simple cases."""
    if s in RANGE or s in ("bool", "mpz", "str", "ld", "dbl", "void"):
        return Ty(s)
    m = re.match(r"^(vec|pair|map|queue|list|set|arr|ptr)<(.*)>$", s)
    if m:
        return Ty(m.group(1), [parse_short(x) for x in _split(m.group(2))])
    m = re.match(r"^(\w+)(<.*>)?$", s)
    if m:
        return Ty("obj", name=m.group(1), a=[Ty("lit", name=m.group(2)[1:-1])] if m.group(2) else ())
    return Ty("other", name=s)


CONVS = {("i64", "u64"), ("u64", "i64"), ("i32", "u64"), ("i32", "u32"), ("u32", "i32"), ("u64", "u32"), ("u64", "i32"), ("i64", "i32"), ("i64", "u32")}
