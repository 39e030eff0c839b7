"""C03: the table of moduli.  primes() is extracted from the AST (a constant table and its return); its postcondition
is a Lean theorem over that table, decided by the Lean kernel with primality certificates computed on every run."""
import os, re, sys, json, subprocess, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tool"))
from cxxast import Unit, ExtractError
GROUPS = []
FACTS = []
HARNESS = [dict(src="c03.cpp", repo=["ReconstHelper.cpp"], budget=(4, 20))]
CHUNKS = 6

CERT = r'''
import sys, json
from sympy import factorint, isprime
def root(p, fs):
    if p == 2: return 1
    for a in range(2, 10000):
        if pow(a, p - 1, p) != 1: return None
        if all(pow(a, (p - 1) // q, p) != 1 for q in fs): return a
def cert(p, out):
    if p in out: return True
    if not isprime(p): return False
    f = factorint(p - 1)
    for q in f:
        if not cert(q, out): return False
    a = root(p, f)
    if a is None: return False
    out[p] = (a, [q for q, e in sorted(f.items()) for _ in range(e)])
    return True
res = []
for p in json.load(sys.stdin):
    out = {}
    ok = p > 1 and cert(p, out)
    res.append(dict(p=p, ok=bool(ok), cert=[[q, a, fs] for q, (a, fs) in out.items()], factors=None if ok else {str(k): v for k, v in factorint(p).items()} if p > 1 else {}))
json.dump(res, sys.stdout)
'''


def table(repo, work):
    u = Unit(repo, os.path.join(VERIF, "tu", "u_primes.cpp"), work, backend="default")
    d = u.funcs.get("primes()")
    if d is None:
        raise ExtractError("primes() not found")
    body = [c for c in d["inner"] if c["kind"] == "CompoundStmt"][0]
    ss = [c for c in body.get("inner", []) if c["kind"] != "NullStmt"]

    def one(n, *kinds):
        while n["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ImplicitCastExpr", "ConstantExpr"):
            n = n["inner"][0]
        if n["kind"] not in kinds:
            raise ExtractError("primes(): expected %s, found %s" % (kinds, n["kind"]))
        return n
    if len(ss) != 2 or ss[0]["kind"] != "DeclStmt" or ss[1]["kind"] != "ReturnStmt":
        raise ExtractError("primes() is not a table and its return")
    v = ss[0]["inner"][0]
    if not v["type"]["qualType"].startswith("const std::vector<uint64_t>") or one(ss[1]["inner"][0], "DeclRefExpr")["referencedDecl"]["id"] != v["id"]:
        raise ExtractError("primes() does not return its constant table")
    c = one(v["inner"][0], "CXXConstructExpr")
    l = one(one(c["inner"][0], "CXXStdInitializerListExpr")["inner"][0], "InitListExpr")

    def val(n):
        n = one(n, "IntegerLiteral", "BinaryOperator")
        if n["kind"] == "IntegerLiteral":
            return int(n["value"])
        a, b = val(n["inner"][0]), val(n["inner"][1])
        op = n["opcode"]
        r = {"+": a + b, "-": a - b, "*": a * b}.get(op)
        if r is None and op == "<<" and b < 64:
            r = a << b
        if r is None or not 0 <= r < 2 ** 64:
            raise ExtractError("primes(): entry not a plain constant")
        return r
    return [val(x) for x in l["inner"] if x.get("kind")]


def extra(repo, work, tier, seed):
    t0 = time.time()
    res = dict(fails=[], obl=[], coverage={}, obligations=0, discharged=0)
    try:
        tab = table(repo, work)
    except (ExtractError, KeyError, IndexError) as e:
        res["coverage"] = dict(undecided="table not extracted: %s; the harness checks the list the compiled function returns" % e)
        return res
    r = subprocess.run(["python3-vt", "-c", CERT], input=json.dumps(tab).encode(), stdout=subprocess.PIPE, timeout=300)
    cs = json.loads(r.stdout)
    for i, c in enumerate(cs):
        if not c["ok"]:
            res["fails"].append(("primes()[%d] prime" % i, "%d = %s" % (c["p"], " * ".join("%s^%d" % kv for kv in c["factors"].items()))))
        elif not 2 ** 62 < c["p"] < 2 ** 63:
            res["fails"].append(("primes()[%d] range" % i, str(c["p"])))
    seen = {}
    for i, p in enumerate(tab):
        if p in seen:
            res["fails"].append(("primes()[%d] repeats entry %d" % (i, seen[p]), str(p)))
        seen.setdefault(p, i)
    base = open(os.path.join(VERIF, "lean", "Pratt.lean")).read()
    L = lambda xs: "[" + ", ".join(map(str, xs)) + "]"
    E = lambda e: "(%d, %d, %s)" % (e[0], e[1], L(e[2]))
    files = []
    n = (len(cs) + CHUNKS - 1) // CHUNKS or 1
    for k in range(0, len(cs), n):
        part = cs[k:k + n]
        txt = base + "\ndef moduli : List Nat := %s\ndef certs : List (List Pratt.Entry) := [%s]\n" % (
            L([c["p"] for c in part]), ",\n ".join("[" + ", ".join(E(e) for e in c["cert"]) + "]" for c in part))
        txt += "theorem moduli_good : ∀ p ∈ moduli, p.Prime ∧ 2 ^ 62 < p ∧ p < 2 ^ 63 :=\n  Pratt.allGood_spec moduli certs (by decide +kernel)\n#print axioms moduli_good\n"
        files.append(("primes_%d_%d" % (k, k + len(part) - 1), txt, len(part)))
    files.append(("primes_distinct", base + "\ndef moduli : List Nat := %s\ntheorem moduli_distinct : moduli.Nodup := Pratt.distinct_spec moduli (by decide +kernel)\n#print axioms moduli_distinct\n" % L(tab), 1))

    def run(f):
        t1 = time.time()
        p = os.path.join(work, f[0] + ".lean")
        open(p, "w").write(f[1])
        try:
            q = subprocess.run(["lean", p], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            out, rc = q.stdout.decode(errors="replace"), q.returncode
        except subprocess.TimeoutExpired:
            out, rc = "timeout", 1
        bad = [a for a in re.findall(r"[\w.]+", (re.search(r"depends on axioms: \[(.*?)\]", out, re.S) or [0, "missing"])[1]) if a not in ("propext", "Quot.sound", "Classical.choice")]
        return f, rc == 0 and not bad and "error" not in out, out, round(time.time() - t1, 1)
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(run, files))
    for f, ok, out, dt in rs:
        res["obligations"] += f[2]
        if ok:
            res["discharged"] += f[2]
        else:
            res["obl"].append((f[0], "Lean rejects the certificate: " + out[:600]))
    res["coverage"] = dict(functions_under_contract=["primes() [default]"], table_entries=len(tab), lean_files=[dict(file=f[0], ok=ok, seconds=dt) for f, ok, _, dt in rs],
                           back_end="Lean 4 kernel (decide +kernel), certificates by sympy are untrusted", seconds=round(time.time() - t0, 1))
    return res


TECHNIQUE = "postcondition of primes() over the table extracted from the clang AST, discharged by the Lean 4 kernel with Pratt certificates"
NOTE = "Every entry of the table in the source compiled now is proved prime, between 2^62 and 2^63 and distinct from the others by the Lean kernel (verified certificate checker over Mathlib's Lucas criterion)."
TRUSTED = ["Lean 4 kernel with GMP-backed naturals; extraction of the constant table from the clang AST (specs/c03.py)"]
