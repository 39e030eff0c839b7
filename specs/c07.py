"""C07: multivariate polynomials over the field (PolynomialFF.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
USE = ["ffield.Field", "fflaws.Laws", "cxxmap.FMap", "polyff.PolyFF"]
def transform(tr, n, args):
    """std::transform over two whole vectors with std::plus<uint32_t>."""
    f = args[-1]
    if len(args) != 5 or "plus<" not in f["type"]["qualType"] + tr.strip(f)["type"]["qualType"] or not any(w in tr.strip(f)["type"]["qualType"] for w in ("unsigned int", "uint32_t")):
        tr.unsup("transform")
    i0, _ = tr.whole_range(args[:2])
    i2, i3 = tr.iter_of(tr.strip(args[2])), tr.iter_of(tr.strip(args[3]))
    if not (i2 and i3 and i2.found == i3.found == "vec" and i2.key == i3.key == "0"):
        tr.unsup("transform")
    tr.write(i3.path, "(transform_plus_u32 %s %s %s)" % tuple(tr.read(i.path) for i in (i0, i2, i3)))
    from cxxast import Ty
    return "()", Ty("void")
B = dict(ff="abs", opts=dict(fields={"PolynomialFF": ["n", "coefs", "generate_new_horner", "eval_horner", "s_y_fun", "vars"]}, abstype={"ShuntingYardParser": "parser"}, defaults={"ShuntingYardParser": "parser0"},
                  libcalls={"transform": transform}), use=USE)
P = "polynomialff_"
def val(p, o="o", n="n"):
    return "msum %s.polynomialff_coefs x %s %s" % (p, o, n)
LEN = "forall k. fmem k this.polynomialff_coefs -> length k >= this.polynomialff_n"
U = []
U.append(FSpec("PolynomialFF::calc(vec<FFInt>)", ["x"], [LEN, "length x >= this.polynomialff_n"], ["result = msum this.polynomialff_coefs x 0 this.polynomialff_n"],
               loops={0: Loop(["res = esum keys0 idx0 this.polynomialff_coefs x 0 this.polynomialff_n"], before="enumerated keys0 this.polynomialff_coefs;"),
                      1: Loop(["0 <= i <= this.polynomialff_n", "product = mval x key0 0 i"], "this.polynomialff_n - i")}, **B))
C = "result.polynomialff_coefs"
A, Bc = "a.polynomialff_coefs", "b.polynomialff_coefs"
def acc(base, other, v="new_coefs", sub=False, k=0, inv=[], after=None):
    return Loop(["forall x o n. msum %s x o n = %s (msum %s x o n) (esum keys%d idx%d %s x o n)" % (v, "fsub" if sub else "fadd", base, k, k, other)] + inv, after=after,
                before="enumerated keys%d %s;" % (k, other), begin="let ghost m0 = %s in" % v,
                end="%s keys%d idx%d %s %s m0 %s;" % ("sub_step_" if sub else "acc_step", k, k, base, other, v))
PP = "PolynomialFF,PolynomialFF"
KEYS2 = "forall k. fmem k %s -> fmem k %s \\/ fmem k %s"
U.append(FSpec("operator+(%s)" % PP, ["a", "b"], [], ["result.polynomialff_n = a.polynomialff_n", "forall x o n. msum %s x o n = fadd (msum %s x o n) (msum %s x o n)" % (C, A, Bc), KEYS2 % (C, A, Bc)],
               loops={0: acc(Bc, A, after="comm_msum %s %s;" % (A, Bc), inv=[KEYS2 % ("new_coefs", A, Bc)]), 1: acc(A, Bc, k=1, inv=[KEYS2 % ("new_coefs", A, Bc)])}, **B))
U.append(FSpec("operator-(%s)" % PP, ["a", "b"], [], ["result.polynomialff_n = a.polynomialff_n", "forall x o n. msum %s x o n = fsub (msum %s x o n) (msum %s x o n)" % (C, A, Bc)],
               loops={0: acc(A, Bc, sub=True)}, **B))
T = "this.polynomialff_coefs"
KN = "this.polynomialff_n = n0"
for o, f in (("+=", "fadd"), ("-=", "fsub")):
    U.append(FSpec("PolynomialFF::operator%s(PolynomialFF)" % o, ["b"], [], ["this.polynomialff_n = (old this).polynomialff_n", "not this.polynomialff_eval_horner",
                   "forall x o n. msum %s x o n = %s (msum (old this).polynomialff_coefs x o n) (msum %s x o n)" % (T, f, Bc), KEYS2 % (T, "(old this).polynomialff_coefs", Bc),
                   "forall l. upto (old this).polynomialff_coefs l -> upto %s l -> upto %s l" % (Bc, T)], entry="let ghost c0 = %s in let ghost n0 = this.polynomialff_n in" % T, writes=["this"],
                   loops={0: acc("c0", Bc, T, o == "-=", inv=[KN, KEYS2 % (T, "c0", Bc)])}, **B))
def scale(m0, v, c, k=0, inv=[]):
    KS = "keys%d" % k
    return Loop(["forall q. fmem q %s <-> fmem q %s" % (v, m0), "forall i. 0 <= i < idx%d -> fval %s %s[i] = fmul (fval %s %s[i]) %s" % (k, v, KS, m0, KS, c),
                 "forall i. idx%d <= i < length %s -> fval %s %s[i] = fval %s %s[i]" % (k, KS, v, KS, m0, KS)] + inv,
                after="assert { forall k. fmem k %s -> 0 <= pos %s k < length %s /\\ %s[pos %s k] = k }; scale_all %s %s %s;" % (m0, KS, KS, KS, KS, m0, v, c))
U.append(FSpec("operator*(PolynomialFF,FFInt)", ["a", "ffint"], [], ["result.polynomialff_n = a.polynomialff_n", "forall x o n. msum %s x o n = fmul (msum %s x o n) ffint" % (C, A), "forall k. fmem k %s -> fmem k %s" % (C, A)],
               loops={0: scale(A, "new_coefs", "ffint")}, **B))
U.append(FSpec("operator/(PolynomialFF,FFInt)", ["a", "ffint"], ["ffint <> fzero"], ["result.polynomialff_n = a.polynomialff_n", "forall x o n. msum %s x o n = fdiv (msum %s x o n) ffint" % (C, A)],
               loops={0: scale(A, "new_coefs", "inv")}, **B))
for o, f in (("*", "fmul"), ("/", "fdiv")):
    U.append(FSpec("PolynomialFF::operator%s=(FFInt)" % o, ["ffint"], ["ffint <> fzero"] if o == "/" else [], ["this.polynomialff_n = (old this).polynomialff_n", "not this.polynomialff_eval_horner",
                   "forall x o n. msum %s x o n = %s (msum (old this).polynomialff_coefs x o n) ffint" % (T, f)], entry="let ghost c0 = %s in let ghost n0 = this.polynomialff_n in" % T, writes=["this"],
                   loops={0: scale("c0", T, "ffint" if o == "*" else "inv", inv=[KN])}, **B))
OK = "0 <= o <= zi - 1 < n + o -> upto %s (n + o) -> " % T
U.append(FSpec("PolynomialFF::mul(u32)", ["zi"], ["1 <= zi", "forall k. fmem k %s -> length k >= zi /\\ k[zi - 1] < 4294967295" % T],
               ["result.polynomialff_n = this.polynomialff_n", "forall x o n. %smsum %s x o n = fmul x[zi - 1 - o] (msum %s x o n)" % (OK, C, T), "forall q. fmem q %s -> exists k. fmem k %s /\\ q = incv k (zi - 1)" % (C, T)],
               loops={0: Loop(["forall x o n. %smsum new_coefs x o n = fmul x[zi - 1 - o] (esum keys0 idx0 %s x o n)" % (OK, T),
                               "forall q. fmem q new_coefs -> exists i. 0 <= i < idx0 /\\ q = incv keys0[i] (zi - 1)"],
                              before="enumerated keys0 %s;" % T, begin="let ghost m0 = new_coefs in", end="mul_step keys0 idx0 %s m0 new_coefs (zi - 1);" % T)}, **B))
U.append(FSpec("PolynomialFF::zero()", [], [], ["result -> forall x o n. msum %s x o n = fzero" % T, "(forall k. not fmem k %s) -> result" % T], **B))
U.append(FSpec("operator*(%s)" % PP, ["a", "b"], ["forall k. fmem k %s -> length k = a.polynomialff_n" % A, "forall k. fmem k %s -> length k >= a.polynomialff_n" % Bc,
                "forall k l i. fmem k %s -> fmem l %s -> 0 <= i < a.polynomialff_n -> k[i] + l[i] <= 4294967295" % (A, Bc)],
               ["result.polynomialff_n = a.polynomialff_n", "forall x o n. 0 <= o -> n + o <= a.polynomialff_n -> msum %s x o n = fmul (msum %s x o n) (msum %s x o n)" % (C, A, Bc)],
               loops={0: Loop(["out_prod keys0 idx0 %s %s new_monomials" % (A, Bc)], before="prod_start keys0 %s %s;" % (A, Bc), after="enumerated keys0 %s;" % A),
                      1: Loop(["in_prod keys0 idx0 keys1 idx1 %s %s new_monomials" % (A, Bc)], before="prod_begin keys0 idx0 keys1 %s %s new_monomials;" % (A, Bc),
                              begin="let ghost m0 = new_monomials in", end="prod_step keys0 idx0 keys1 idx1 %s %s m0 new_monomials;" % (A, Bc),
                              after="prod_end keys0 idx0 keys1 %s %s new_monomials;" % (A, Bc))}, **B))
HM = "cons (degree - sumto keys0[i] (length keys0[i])) keys0[i]"
U.append(FSpec("PolynomialFF::homogenize(u32)", ["degree"], ["forall k. fmem k %s -> sumto k (length k) <= degree" % T],
               ["not this.polynomialff_eval_horner", "result = this", "this.polynomialff_n = (old this).polynomialff_n",
                "forall q. fmem q %s -> length q >= 1 /\\ sumto q (length q) = degree" % T,
                "forall x o n. 0 <= o -> upto (old this).polynomialff_coefs (n + o) -> msum %s x (o + 1) n = msum (old this).polynomialff_coefs x o n" % T],
               writes=["this"], entry="let ghost c0 = %s in let ghost n0 = this.polynomialff_n in" % T,
               loops={0: Loop([KN, "tmp_coef = c0", "forall x o n. 0 <= o -> upto c0 (n + o) -> msum %s x (o + 1) n = esum keys0 idx0 c0 x o n" % T,
                               "forall q. fmem q %s -> exists i. 0 <= i < idx0 /\\ q = %s" % (T, HM), "forall q. fmem q %s -> length q >= 1 /\\ sumto q (length q) = degree" % T],
                              before="enumerated keys0 c0;", begin="let ghost m0 = %s in" % T, end="hom_step keys0 idx0 c0 m0 %s (degree - sumto keys0[idx0] (length keys0[idx0]));" % T),
                      1: Loop(["old_degree = sumto key0 idx1"], begin="sumto_mono key0 (idx1 + 1) (length key0);")}, **B))
U.append(FSpec("PolynomialFF::remove_zero_coefs()", [], [], ["this = { (old this) with polynomialff_coefs = %s }" % T, "forall k. fmem k %s -> fval %s k <> fzero" % (T, T),
                                                           "forall x o n. msum %s x o n = msum (old this).polynomialff_coefs x o n" % T], writes=["this"],
               entry="let ghost t0 = this in let ghost c0 = %s in" % T,
               loops={0: Loop(["this = t0", "forall i. 0 <= i < length zero_degs -> fmem zero_degs[i] c0 /\\ fval c0 zero_degs[i] = fzero",
                               "vec_ok zero_degs", "forall i. 0 <= i < length zero_degs -> fmem zero_degs[i] c0",
                               "forall i. 0 <= i < idx0 -> fval c0 keys0[i] = fzero -> exists j. 0 <= j < length zero_degs /\\ zero_degs[j] = keys0[i]"],
                              begin="let ghost z0 = zero_degs in", end="assert { forall j. 0 <= j < length z0 -> zero_degs[j] = z0[j] }; assert { forall j. 0 <= j < length zero_degs -> fmem zero_degs[j] c0 };",
                              after="assert { forall k. fmem k c0 -> fval c0 k = fzero -> exists j. 0 <= j < length zero_degs /\\ zero_degs[j] = k by 0 <= pos keys0 k < length keys0 /\\ keys0[pos keys0 k] = k };"),
                      1: Loop(["this = { t0 with polynomialff_coefs = %s }" % T, "forall k. fmem k %s -> fmem k c0 /\\ fval %s k = fval c0 k" % (T, T), "forall i. 0 <= i < idx1 -> not fmem zero_degs[i] %s" % T,
                               "forall x o n. msum %s x o n = msum c0 x o n" % T],
                              begin="let ghost m1 = %s in let ghost k1 = zero_degs[idx1] in if fmem k1 m1 then drop_all k1 m1 else ext (fremove_ k1 m1) m1;" % T)}, **B))
HO = "this.polynomialff_eval_horner -> horner_ok this.polynomialff_s_y_fun %s this.polynomialff_n" % T
U.append(FSpec("PolynomialFF::generate_hornerff()", [], ["forall k. fmem k %s -> length k = this.polynomialff_n" % T, "exists k. fmem k %s" % T],
               ["this = { (old this) with polynomialff_s_y_fun = this.polynomialff_s_y_fun }", "horner_ok this.polynomialff_s_y_fun %s this.polynomialff_n" % T], writes=["this"], trusted="text generation; exercised by the harness", verify=False, **B))
U.append(FSpec("ShuntingYardParser::evaluate_pre(vec<FFInt>)", ["x"], [], ["length result >= 1", "result[0] = pval this x"], trusted="property C12", verify=False, **B))
U.append(FSpec("PolynomialFF::calc_n_m_1(vec<FFInt>)", ["x"], ["this.polynomialff_n >= 1", "forall k. fmem k %s -> length k = this.polynomialff_n" % T, "length x >= this.polynomialff_n - 1", HO],
               ["result = msum %s x 1 (this.polynomialff_n - 1)" % T, HO, "%s = (old this).polynomialff_coefs" % T, "this.polynomialff_n = (old this).polynomialff_n"], writes=["this"], entry="let ghost c0 = %s in" % T,
               loops={0: Loop(["res = esum keys0 idx0 %s x 1 (this.polynomialff_n - 1)" % T], before="enumerated keys0 %s;" % T),
                      1: Loop(["0 <= i <= n_m_1", "product = mval x key0 1 i"], "n_m_1 - i")}, **B))
GROUPS = [dict(unit="u_pff.cpp", specs=U)]
FACTS = ["lean/FieldLaws.lean"]
HARNESS = [dict(src="c07.cpp", repo=CORE, budget=(6, 60))]
NOTE = "Contracts on PolynomialFF::calc, calc_n_m_1, +, -, +=, -=, the scalar operators, products of polynomials, mul, zero, homogenize and remove_zero_coefs: the value of the result at every point, for every number of terms and variables and any order of iteration, over an abstract field. The Horner form of calc_n_m_1 is taken by contract, and shifts of the variables are tested only (bounded)."
ASSUMPTIONS = ["The field operations of FFInt are taken by their contracts (proved under C01, C02); the ring and field laws used are checked by Lean 4 for every field (lean/FieldLaws.lean, compared with the theory on every run).",
               "PolynomialFF::generate_hornerff (text generation) is assumed to store a parser whose value is that of the polynomial without its first variable; ShuntingYardParser::evaluate_pre returns that value (property C12). Both are exercised by the harness with an independent evaluation.",
               "PolynomialFF::add_shift, mul_shift and bin_coef are not under contract: the harness compares their values with an independent evaluation (bounded).",
               "std::unordered_map is a finite map whose iteration takes every key once, in any order; emplace keeps an existing element.",
               "Exponent vectors of a polynomial have at least n entries and sums of exponents fit into 32 bits; reference arguments do not alias, except that the comparison this == &b may say so.",
               "std::transform with std::plus adds element by element."]
