"""C11: univariate interpolation (FFThieleInterpolator.cpp, PolyReconst.cpp)."""
import copy
from common import CORE
from cxx2why import FSpec, Loop
import c07
B = dict(ff="abs", opts=dict(c07.B["opts"], fields=dict(c07.B["opts"]["fields"], PolyReconst=["n", "zi", "private_anchor_points"], ThieleInterpolator=["ai", "ti"])),
         use=["ffield.Field", "fflaws.Laws", "cxxmap.FMap", "polyff.PolyFF", "interp.Thiele", "interp.ThielePop", "interp.Newton", "interp.NewtonAll", "interp.Uni"])
def callee(s):
    s = copy.copy(s); s.verify = False; s.trusted = "proved under C07"; return s
CAL = [callee(s) for s in c07.U if s.key in ("operator+(PolynomialFF,PolynomialFF)", "operator*(PolynomialFF,FFInt)", "PolynomialFF::operator+=(PolynomialFF)", "PolynomialFF::mul(u32)")]
A, T = "this.thieleinterpolator_ai", "this.thieleinterpolator_ti"
OA, OT = "(old this).thieleinterpolator_ai", "(old this).thieleinterpolator_ti"
U = []
U.append(FSpec("ThieleInterpolator::comp_ai(u32,FFInt)", ["i", "num"], ["i < length " + T, "i <= length " + A, "i < 4294967295"], ["result = chain %s %s i %s[i] num" % (A, T, T), "this = old this"],
    writes=["this"], entry="let ghost t0 = this in", loops={0: Loop(["this = t0", "1 <= ip_tmp <= i + 1", "res = chain %s %s (ip_tmp - 1) %s[i] num" % (A, T, T)], "i + 1 - ip_tmp")}, **B))
U.append(FSpec("ThieleInterpolator::comp_fyi(u32,FFInt)", ["i", "y"], ["i < length " + A, "i <= length " + T, "i < 4294967295"], ["result = cf %s %s 0 i y" % (A, T), "this = old this"],
    writes=["this"], entry="let ghost t0 = this in", loops={0: Loop(["this = t0", "1 <= ip_tmp <= i + 1", "res = cf %s %s (i - ip_tmp + 1) i y" % (A, T)], "i + 1 - ip_tmp", begin="law_neg_add (pure { %s[i - ip_tmp] }) y;" % T)}, **B))
U.append(FSpec("ThieleInterpolator::add_point(FFInt,FFInt)", ["num", "yi"],
    ["length %s = length %s" % (T, A), "length %s < 4294967295" % T, "forall k. 0 <= k < length %s -> %s[k] <> yi" % (T, T)],
    ["%s = snoc %s yi" % (T, OT),
     "result -> %s = %s /\\ length %s > 0 /\\ cf %s %s 0 (length %s - 1) yi = num" % (A, OA, OA, OA, OT, OA),
     "not result -> length %s = length %s + 1 /\\ cf %s %s 0 (length %s) yi = num" % (A, OA, A, T, OA),
     "not result -> length %s > 0 -> cf %s %s 0 (length %s - 1) yi <> num" % (OA, OA, OT, OA),
     "not result -> forall j. 0 <= j < length %s -> %s[j] = %s[j] /\\ cf %s %s 0 (length %s) %s[j] = cf %s %s 0 (length %s - 1) %s[j]" % (OA, A, OA, A, T, OA, OT, OA, OT, OA, OT)],
    writes=["this"], entry="let ghost a0 = %s in let ghost t0 = %s in let ghost n0 = length a0 in" % (A, T),
    exit="added a0 t0 (pure { %s }) (pure { %s }) num yi;" % (A, T), **B))
def cv(m):
    return "msum %s x 0 1" % m
VAL = lambda m, f: "forall x. length x = 1 -> msum %s x 0 1 = %s" % (m, f)
DK = "(forall k. fmem k %s -> length k = 1 /\\ 0 <= k[0] <= %s)"
N, D = "result.first.polynomialff_coefs", "result.second.polynomialff_coefs"
LA = "length " + A
PRE = [LA + " <= 4294967295", "length %s >= %s" % (T, LA)]
U.append(FSpec("ThieleInterpolator::iterate_canonical()", [], [LA + " >= 2"] + PRE,
    ["this = old this", "result.first.polynomialff_n = 1 /\\ result.second.polynomialff_n = 1", DK % (N, LA + " - 2"), DK % (D, LA + " - 2"),
     VAL(N, "cn %s %s 1 (%s - 1) x[0]" % (A, T, LA)), VAL(D, "cd %s %s 1 (%s - 1) x[0]" % (A, T, LA))],
    writes=["this"], entry="let ghost t0 = this in",
    loops={0: Loop(["this = t0", "0 <= i_tmp <= %s - 2" % LA, "res.first.polynomialff_n = 1 /\\ res.second.polynomialff_n = 1",
                    DK % ("res.first.polynomialff_coefs", "%s - 2 - i_tmp" % LA), DK % ("res.second.polynomialff_coefs", "%s - 2 - i_tmp" % LA),
                    VAL("res.first.polynomialff_coefs", "cn %s %s (i_tmp + 1) (%s - 1) x[0]" % (A, T, LA)), VAL("res.second.polynomialff_coefs", "cd %s %s (i_tmp + 1) (%s - 1) x[0]" % (A, T, LA))], "i_tmp",
                   begin="let ghost r0 = res in let ghost i0 = i_tmp in", end="let ghost r1 = res in let lemma st (x : seq ff) requires { length x = 1 } ensures { msum r1.first.polynomialff_coefs x 0 1 = fadd (fmul %s[i0] (msum r0.first.polynomialff_coefs x 0 1)) (fmul (fsub x[0] %s[i0]) (msum r0.second.polynomialff_coefs x 0 1)) } = "
                       "law_comm_mul (msum r0.first.polynomialff_coefs x 0 1) (pure { %s[i0] }); law_three (pure { %s[i0] }) (msum r0.first.polynomialff_coefs x 0 1) (msum r0.second.polynomialff_coefs x 0 1) (pure { %s[i0] }) (pure { x[0] }) in" % (A, T, A, A, T))}, **B))
RN, RD = "result.first", "result.second"
CAN = [VAL(RN, "cn %s %s 0 (%s - 1) x[0]" % (OA, OT, "length " + OA)), VAL(RD, "cd %s %s 0 (%s - 1) x[0]" % (OA, OT, "length " + OA)),
       "forall x. length x = 1 -> regular %s %s (length %s - 1) x[0] -> msum result.second x 0 1 <> fzero /\\ fdiv (msum result.first x 0 1) (msum result.second x 0 1) = cf %s %s 0 (length %s - 1) x[0]" % (OA, OT, OA, OA, OT, OA)]
U.append(FSpec("ThieleInterpolator::construct_canonical()", [], [LA + " >= 1"] + PRE, ["this = old this"] + CAN, writes=["this"], entry="let ghost t0 = this in cf_frac_all %s %s (%s - 1); let ghost a00 = pure { %s[0] } in let ghost t00 = pure { %s[0] } in let lemma st (u d y : ff) ensures { fadd (fadd (fmul u a00) (fmul d (fneg t00))) (fmul y d) = fadd (fmul a00 u) (fmul (fsub y t00) d) } = law_comm_mul u a00; law_three_ a00 u d t00 y in" % (A, T, LA, A, T),
    exit="", **B))
U.append(FSpec("ThieleInterpolator::get_result()", [], [LA + " >= 1", LA + " <= 4294967295", "length %s > %s" % (T, LA)], [A + " = " + OA] + CAN, writes=["this"],
    entry="popped %s %s;" % (A, T), exit="", **B))
Z = "this.polyreconst_zi"
PAP = "this.polyreconst_private_anchor_points"
BASE = "%s[%s - 1]" % (PAP, Z)
ZOK = "1 <= %s <= length %s" % (Z, PAP)
U.append(FSpec("PolyReconst::get_rand_zi(u32,u32)", ["zi", "order"], ["1 <= zi <= length " + PAP], ["result = fpow %s[zi - 1] order" % PAP ], **B))
NI = "length ai"
U.append(FSpec("PolyReconst::comp_ai(i32,FFInt,vec<FFInt>)", ["i", "num", "ai"], [ZOK, "0 <= i <= length ai", "i < 2147483647", "forall k. 1 <= k <= i -> fpow %s k <> fpow %s (i + 1)" % (BASE, BASE)],
    ["result = ndiff ai %s i (fpow %s (i + 1)) num" % (BASE, BASE), "forall c. length c = i + 1 -> (forall k. 0 <= k < i -> c[k] = ai[k]) -> c[i] = result -> nf c %s 0 i (fpow %s (i + 1)) = num /\\ forall j. 0 <= j < i -> nf c %s 0 i (fpow %s (j + 1)) = nf ai %s 0 (i - 1) (fpow %s (j + 1))" % ((BASE,) * 6) ],
    entry="newton_all ai %s i num;" % BASE,
    loops={0: Loop(["1 <= ip_tmp <= i + 1", "res = ndiff ai %s (ip_tmp - 1) (fpow %s (i + 1)) num" % (BASE, BASE)], "i + 1 - ip_tmp")}, **B))
RC = "result.polynomialff_coefs"
ST = "let lemma st (q y t : ff) ensures { fadd (fmul q (fneg t)) (fmul y q) = fmul (fsub y t) q } = law_newton_step q y t in"
U.append(FSpec("PolyReconst::iterate_canonical(vec<FFInt>)", ["ai"], [ZOK, "2 <= length ai <= 4294967295"],
    ["result.polynomialff_n = 1", DK % (RC, NI + " - 1"), VAL(RC, "fmul (fsub x[0] (fpow %s 1)) (nf ai %s 1 (%s - 1) x[0])" % (BASE, BASE, NI))],
    
    loops={0: Loop(["0 <= i_tmp <= %s - 2" % NI, "res.polynomialff_n = 1", DK % ("res.polynomialff_coefs", NI + " - 1 - i_tmp"),
                    VAL("res.polynomialff_coefs", "fmul (fsub x[0] (fpow %s (i_tmp + 1))) (nf ai %s (i_tmp + 1) (%s - 1) x[0])" % (BASE, BASE, NI))], "i_tmp",
        before="let ghost r00 = res in let ghost y00 = yi in let ghost bb = pure { %s } in let ghost m = length ai - 1 in let lemma vv0 (x : seq ff) requires { length x = 1 } ensures { msum r00.polynomialff_coefs x 0 1 = fmul (fsub x[0] (fpow bb m)) ai[m] } = assert { y00 = fpow bb m }; law_newton_step (pure { ai[m] }) (pure { x[0] }) y00 in" % BASE,
        begin="let ghost r0 = res in let ghost i0 = i_tmp in assert { upto r0.polynomialff_coefs 1 };", end="let ghost r1 = res in let ghost b = pure { %s } in let lemma kk (k : mono) requires { fmem k r1.polynomialff_coefs } ensures { length k = 1 /\\ 0 <= k[0] <= %s - i0 } = () in let lemma vv (x : seq ff) requires { length x = 1 } ensures { msum r1.polynomialff_coefs x 0 1 = fmul (fsub x[0] (fpow b i0)) (fadd (msum r0.polynomialff_coefs x 0 1) ai[i0]) } = assert { yi = fpow b i0 }; law_newton_step (fadd (msum r0.polynomialff_coefs x 0 1) (pure { ai[i0] })) (pure { x[0] }) (fpow b i0) in let lemma ww (x : seq ff) requires { length x = 1 } ensures { fadd (msum r0.polynomialff_coefs x 0 1) ai[i0] = nf ai b i0 (%s - 1) x[0] } = law_comm_add (msum r0.polynomialff_coefs x 0 1) (pure { ai[i0] }) in" % (BASE, NI, NI))}, entry="assert { mod (length ai - 1) 18446744073709551616 = length ai - 1 }; assert { mod (length ai - 1) 4294967296 = length ai - 1 };" + ST, **B))
U.append(FSpec("PolyReconst::construct_canonical(vec<FFInt>)", ["ai"], [ZOK, "1 <= length ai <= 4294967295"],
    [VAL("result", "nf ai %s 0 (%s - 1) x[0]" % (BASE, NI)), DK % ("result", NI + " - 1")],  **B))

FACTS = ["lean/FieldLaws.lean"]
HARNESS = [dict(src="c11.cpp", repo=CORE + ["PolyReconst.cpp"], budget=(6, 60))]
GROUPS = [dict(unit="u_interp.cpp", specs=CAL + U)]
BOUNDED = ["PolyReconst::construct_tmp_canonical", "copies, moves and assignments of ThieleInterpolator"]
NOTE = "Contracts on ThieleInterpolator::add_point, comp_ai, comp_fyi, iterate_canonical, construct_canonical, get_result and PolyReconst::get_rand_zi, comp_ai, iterate_canonical, construct_canonical, discharged for every number of points and all values over an abstract field (field laws checked in Lean)."
ASSUMPTIONS = ["FFInt operations are abstract field operations here (their exactness is C01); division by zero gives zero as FFInt does with the default arithmetic (with FLINT it aborts), which matters only at points where an inner value of the fraction vanishes",
               "the operators of PolynomialFF used by the canonical forms (sum, product with a number, multiplication by the variable) are taken by their contracts, which are proved under C07",
               "the objects are reduced to the members named in the contracts (ai, ti; n, zi, private_anchor_points); the mutexes and all other members are dropped",
               "interpolations have at most 2^32 - 1 points, the powers of the anchor point used as nodes are pairwise distinct"]
