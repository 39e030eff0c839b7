"""Generates theories/fflaws.mlw (field laws for Why3) and lean/FieldLaws.lean (their proofs for an arbitrary field)
from one list, theories/laws.txt."""
import ast, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = {ast.Add: ("fadd", "+"), ast.Sub: ("fsub", "-"), ast.Mult: ("fmul", "*"), ast.Div: ("fdiv", "/")}


def why(n):
    if isinstance(n, ast.Expression):
        return why(n.body)
    if isinstance(n, ast.BoolOp):
        return "(" + (" \\/ " if isinstance(n.op, ast.Or) else " /\\ ").join(map(why, n.values)) + ")"
    if isinstance(n, ast.Compare):
        o = n.ops[0]
        l, r = n.left, n.comparators[0]
        t = int_ if isint(l) or isint(r) else why
        return "%s %s %s" % (t(l), {ast.Eq: "=", ast.NotEq: "<>", ast.GtE: ">=", ast.Gt: ">"}[type(o)], t(r))
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Pow):
            return "(fpow %s (%s))" % (why(n.left), int_(n.right))
        return "(%s %s %s)" % (FN[type(n.op)][0], why(n.left), why(n.right))
    if isinstance(n, ast.UnaryOp):
        return "(fneg %s)" % why(n.operand)
    if isinstance(n, ast.Constant):
        return {0: "fzero", 1: "fone"}.get(n.value) or "(fofint %d)" % n.value
    if isinstance(n, ast.Call):
        return "(fofint (%s))" % int_(n.args[0])
    if isinstance(n, ast.Name):
        return n.id
    raise ValueError(ast.dump(n))


IV = {"n", "m"}


def isint(n):
    return all(x.id in IV for x in ast.walk(n) if isinstance(x, ast.Name)) and any(isinstance(x, ast.Name) for x in ast.walk(n)) and not any(isinstance(x, ast.Call) for x in ast.walk(n))


def int_(n):
    return ast.unparse(n)


def lean(n):
    if isinstance(n, ast.Expression):
        return lean(n.body)
    if isinstance(n, ast.BoolOp):
        return "(" + (" ∨ " if isinstance(n.op, ast.Or) else " ∧ ").join(map(lean, n.values)) + ")"
    if isinstance(n, ast.Compare):
        l, r = n.left, n.comparators[0]
        t = (lambda x: "(%s : ℤ)" % int_(x)) if isint(l) or isint(r) else lean
        return "%s %s %s" % (t(l), {ast.Eq: "=", ast.NotEq: "≠", ast.GtE: "≥", ast.Gt: ">"}[type(n.ops[0])], t(r))
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Pow):
            return "(%s ^ (%s : ℤ))" % (lean(n.left), int_(n.right))
        return "(%s %s %s)" % (lean(n.left), FN[type(n.op)][1], lean(n.right))
    if isinstance(n, ast.UnaryOp):
        return "(-%s)" % lean(n.operand)
    if isinstance(n, ast.Constant):
        return "(%d : F)" % n.value
    if isinstance(n, ast.Call):
        return "((%s : ℤ) : F)" % int_(n.args[0])
    return n.id


def build():
    W = ["(* Generated by tool/gen_laws.py from theories/laws.txt; each law is proved for an arbitrary field in lean/FieldLaws.lean. *)", "module Laws", "  use int.Int", "  use ffield.Field"]
    L = ["import Mathlib.Tactic", "import Mathlib.Algebra.Field.Basic", "/-! Generated by tool/gen_laws.py from theories/laws.txt. -/", "variable {F : Type*} [Field F]", ""]
    for line in open(os.path.join(V, "theories", "laws.txt")):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        parts = [x.strip() for x in line.split("|")]
        (kind, name), vs, hyps, con = parts[0].split(), parts[1].split(), parts[2], parts[3]
        tac = parts[4] if len(parts) > 4 else None
        hs = [ast.parse(h.strip(), mode="eval") for h in hyps.split(",") if h.strip()]
        c = ast.parse(con, mode="eval")
        fv, iv = [v for v in vs if v not in IV], [v for v in vs if v in IV]
        if kind == "axiom":
            q = ("forall %s. " % ", ".join(x for x in [" ".join(fv) + " : ff" if fv else "", " ".join(iv) + " : int" if iv else ""] if x)) if vs else ""
            W.append("  axiom %s : %s%s%s" % (name, q, "".join(why(h) + " -> " for h in hs), why(c)))
        else:
            W.append("  val ghost law_%s %s : unit%s ensures { %s }" % (name, " ".join(x for x in ["(" + " ".join(fv) + " : ff)" if fv else "", "(" + " ".join(iv) + " : int)" if iv else ""] if x),
                     "".join(" requires { %s }" % why(h) for h in hs), why(c)))
        hn = ["h%d" % i for i in range(len(hs))]
        L.append("theorem law_%s%s%s%s : %s := by" % (name, " (%s : F)" % " ".join(fv) if fv else "", " (%s : ℤ)" % " ".join(iv) if iv else "", "".join(" (%s : %s)" % (a, lean(h)) for a, h in zip(hn, hs)), lean(c)))
        L.append("  " + (tac or ("simpa using h0" if kind == "axiom" and hs and "!=" not in hyps else ("simp" if len(con) < 14 else "ring") if kind == "axiom" and not hs else "first | (field_simp; done) | (field_simp; ring)" if any("≠" in lean(h) for h in hs) and "/" in con else "linear_combination (h0)" if hs else "ring")))
        L.append("")
    W.append("end")
    return "\n".join(W) + "\n", "\n".join(L)


if __name__ == "__main__":
    w, l = build()
    fw, fl = os.path.join(V, "theories", "fflaws.mlw"), os.path.join(V, "lean", "FieldLaws.lean")
    if sys.argv[1:] == ["--check"]:
        sys.exit(0 if open(fw).read() == w and open(fl).read() == l else 1)
    open(fw, "w").write(w)
    open(fl, "w").write(l)
