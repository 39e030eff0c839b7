"""Sound weakening of an SMT-LIB file: products of two non-constants, and mod/div, become uninterpreted
functions (an unsatisfiable weakened file is unsatisfiable as it stands); helps linear reasoning."""
import os
import re

TOK = re.compile(r'\(|\)|"(?:[^"]|"")*"|\|[^|]*\||;[^\n]*|[^\s()]+')


def parse(s):
    out = []
    st = [out]
    for m in TOK.finditer(s):
        t = m.group(0)
        if t[0] == ";":
            continue
        if t == "(":
            n = []
            st[-1].append(n)
            st.append(n)
        elif t == ")":
            st.pop()
        else:
            st[-1].append(t)
    return out


def show(x):
    return x if isinstance(x, str) else "(" + " ".join(map(show, x)) + ")"


NUM = re.compile(r"^\d+(\.\d+)?$")


def isnum(x):
    return (isinstance(x, str) and bool(NUM.match(x))) or (isinstance(x, list) and len(x) == 2 and x[0] == "-" and isnum(x[1])) or (
        isinstance(x, list) and len(x) == 3 and x[0] == "/" and isnum(x[1]) and isnum(x[2]))


ARITH = set("+ - * / mod div <= < >= > = => and or not ite to_real to_int distinct ! let true false".split())


def std_names():
    """Names of the axioms of Why3's finite sets and finite maps, and of Euclidean division."""
    out = {"mem'def", "infix =='def", "mapsto'def", "is_empty'def", "subset'def", "disjoint'def", "extensionality", "cardinal1", "size'def", "size", "is_empty_empty"}
    for f in ("set", "fmap"):
        try:
            t = open("/usr/share/why3/stdlib/%s.mlw" % f).read()
        except OSError:
            continue
        out |= set(re.findall(r"(?:axiom|lemma)\s+(\w+)", t))
    return out


def prune(text):
    """Drops the axioms about finite sets and maps themselves (theories/cxxmap.mlw restates what is needed)."""
    drop = std_names() - set(re.findall(r"lemma (\w+)", open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "theories", "cxxmap.mlw")).read()))
    if ';; "fmap"' not in text:
        return None
    out, n = [], 0
    for b in re.split(r'(?m)^(?=;; ")', text):
        m = re.match(r';; "([^"]*)"\n\(assert', b)
        if m and (m.group(1) in drop or re.match(r"(Div|Mod)_", m.group(1))):
            n += 1
            continue
        out.append(b)
    return "".join(out) if n else None


def weaken(text, uf=True, axioms=True):
    text = re.sub(r';; "law_[^"]*"\n\(assert', "(assert-law", text)
    cmds = parse(text)
    sorts = {}
    used = set()

    def sort(x, env):
        if isinstance(x, str):
            if NUM.match(x):
                return "Real" if "." in x else "Int"
            return env.get(x) or sorts.get(x) or "?"
        h = x[0]
        if h in ("+", "-", "*"):
            for a in x[1:]:
                s = sort(a, env)
                if s == "Real":
                    return s
            return sort(x[1], env)
        if h in ("/", "to_real"):
            return "Real"
        if h in ("mod", "div", "to_int", "abs", "umul", "umod", "udiv"):
            return "Int"
        if h in ("rmul", "rdiv"):
            return "Real"
        if h == "ite":
            return sort(x[2], env)
        if h == "let":
            e = dict(env)
            for v, t in x[1]:
                e[v] = sort(t, env)
            return sort(x[2], e)
        if h == "!":
            return sort(x[1], env)
        if isinstance(h, list):
            if h[0] == "as":
                return show(h[2])
            return "?"
        if h == "as":
            return show(x[2])
        return sorts.get(h, "?")

    def tr(x, env):
        if not uf or isinstance(x, str):
            return x
        if not x:
            return x
        h = x[0]
        if h in ("forall", "exists"):
            e = dict(env)
            for v, s in x[1]:
                e[v] = show(s)
            return [h, x[1], tr(x[2], e)]
        if h == "let":
            e = dict(env)
            for v, t in x[1]:
                e[v] = sort(t, env)
            return ["let", [[v, tr(t, env)] for v, t in x[1]], tr(x[2], e)]
        if h == "*" and len(x) == 3 and not isnum(x[1]) and not isnum(x[2]):
            f = {"Int": "umul", "Real": "rmul"}.get(sort(x, env))
            if f is None:
                return [h] + [tr(a, env) for a in x[1:]]
            used.add(f)
            a, b = tr(x[1], env), tr(x[2], env)
            neg = False
            # move signs out: (-a) * b = -(a * b)
            if isinstance(a, list) and a[0] == "-" and len(a) == 2:
                a, neg = a[1], not neg
            if isinstance(b, list) and b[0] == "-" and len(b) == 2:
                b, neg = b[1], not neg
            if show(a) > show(b):
                a, b = b, a
            r = [f, a, b]
            return ["-", r] if neg else r
        if h in ("mod", "div") and len(x) == 3:
            f = "u" + h
            used.add(f)
            return [f, tr(x[1], env), tr(x[2], env)]
        if h == "/" and len(x) == 3 and not isnum(x[2]):
            used.add("rdiv")
            return ["rdiv", tr(x[1], env), tr(x[2], env)]
        if h == "_" or h == "as":
            return x
        return [h if isinstance(h, str) else tr(h, env)] + [tr(a, env) for a in x[1:]]

    consts = set()

    def syms(x):
        return {x} if isinstance(x, str) else set().union(*map(syms, x)) if x else set()

    def pure(x):
        """No symbol besides arithmetic, the bound variables and absolute value."""
        bound = {v for v, _ in x[1]}

        def ok(t):
            if isinstance(t, str):
                return t in bound or t in ARITH or bool(NUM.match(t)) or t.startswith("abs")
            if t and t[0] in ("forall", "exists"):
                bound.update(v for v, _ in t[1])
                return ok(t[2])
            return all(ok(y) for y in t if not (isinstance(y, str) and y.startswith(":pattern")))
        return ok(x[2])

    out = []
    for c in cmds:
        if c[0] == "declare-fun":
            sorts[c[1]] = show(c[3])
            if not c[2]:
                consts.add(c[1])
            out.append(c)
        elif c[0] == "declare-const":
            sorts[c[1]] = show(c[2])
            out.append(c)
        elif c[0] in ("define-fun", "define-fun-rec"):
            e = {v: show(s) for v, s in c[2]}
            sorts[c[1]] = show(c[3])
            out.append([c[0], c[1], c[2], c[3], tr(c[4], e)])
        elif c[0] == "declare-datatypes":
            for (nm, dts) in zip(c[1], c[2]):
                ctors = dts[2] if dts and dts[0] == "par" else dts
                for ct in ctors:
                    if isinstance(ct, list):
                        for sel in ct[1:]:
                            sorts[sel[0]] = show(sel[1])
            out.append(c)
        elif c[0] == "assert-law":
            out.append(["assert", tr(c[1], {})])
        elif c[0] == "assert":
            if isinstance(c[1], list) and c[1] and c[1][0] == "forall" and pure(c[1]):
                used.add(None)
                continue        # a law of arithmetic: dropped here (weaker, hence sound)
            if not axioms and isinstance(c[1], list) and c[1] and c[1][0] == "forall" and not (syms(c[1]) & consts):
                used.add(None)
                continue        # a theory axiom: dropped here
            out.append(["assert", tr(c[1], {})])
        else:
            out.append(c)
    if not used:
        return None
    used.discard(None)
    D = {"umul": "(declare-fun umul (Int Int) Int)", "umod": "(declare-fun umod (Int Int) Int)", "udiv": "(declare-fun udiv (Int Int) Int)",
         "rmul": "(declare-fun rmul (Real Real) Real)", "rdiv": "(declare-fun rdiv (Real Real) Real)"}
    # declarations go before the first declaration/assertion
    k = next(i for i, c in enumerate(out) if c[0] in ("declare-fun", "declare-const", "define-fun", "assert", "assert-law", "declare-sort", "declare-datatypes", "define-fun-rec", "declare-datatype"))
    lines = [show(c) for c in out]
    C = ["(assert (forall ((x %s) (y %s)) (! (= (%s x y) (%s y x)) :pattern ((%s x y)))))" % (t, t, f, f, f)
         for f, t in (("umul", "Int"), ("rmul", "Real")) if f in used]
    return "\n".join(lines[:k] + [D[u] for u in sorted(used)] + C + lines[k:]) + "\n"
