"""C08: dense univariate polynomials over the field (Poly.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
from cxxast import Ty
def reverse(tr, n, args):
    i0, _ = tr.whole_range(args)
    tr.write(i0.path, "(vreverse %s)" % tr.read(i0.path))
    return "()", Ty("void")
def fl(f):
    def h(tr, n, args):
        c, _ = tr.ex(args[0])
        return "(%s %s)" % (f, c), Ty("dbl")
    return h
B = dict(ff="abs", opts=dict(libcalls={"reverse": reverse, "ceil": fl("dbl_ceil"), "log2": fl("dbl_log2"), "exp2": fl("dbl_exp2")}),
         use=["ffield.Field", "fflaws.Laws", "polylaws.PolyLaws", "poly.Poly", "poly.Dbl", "poly.Divide", "poly.Gcd", "poly.DgKeep", "int.Power"])
T, A, Bc, R, OT = "this.poly_coeff", "a.poly_coeff", "b.poly_coeff", "result.poly_coeff", "(old this).poly_coeff"
def ne(*x): return ["length %s >= 1" % y for y in x]
U = []
U.append(FSpec("Poly::get_deg()", [], ne(T), ["result = dg " + T], loops={0: Loop(["0 <= i < length " + T, "pdeg %s (i + 1) = dg %s" % (T, T)], "i")}, **B))
U.append(FSpec("Poly::shrink_to_fit()", [], ne(T) + ["nonzero " + T], ["%s = %s[.. dg %s + 1]" % (T, OT, OT)], writes=["this"], entry="let ghost c0 = %s in" % T,
               loops={0: Loop(["dg c0 < length %s <= length c0" % T, "forall k. 0 <= k < length %s -> %s[k] = c0[k]" % (T, T)], "length " + T, after="assert { %s == c0[.. dg c0 + 1] };" % T)}, **B))
U.append(FSpec("Poly::rev()", [], ne(T) + ["nonzero " + T], ["length %s = dg %s + 1" % (T, OT), "%s = rv %s" % (T, OT)], writes=["this"], entry="let ghost c0 = %s in" % T, exit="rv_is c0 %s;" % T, **B))
for o, f, g in (("+=", "fadd", "padd"), ("-=", "fsub", "psub")):
    U.append(FSpec("Poly::operator%s(Poly)" % o, ["a"], ne(T, A), ["length %s >= 1" % T, "tp %s = %s (tp %s) (tp %s)" % (T, g, OT, A)] , writes=["this"], entry="let ghost c0 = %s in let ghost t0 = this in" % T, alias={"a": ("this", (), "this", "t0")},
                   loops={0: Loop(["0 <= i <= dg %s + 1" % A, "i <= dg c0 -> dg %s <= dg c0 -> dg %s = dg c0" % (A, T), "length %s >= dg %s + 1" % (T, A), "forall k. 0 <= k < length %s -> %s[k] = if k < i then %s (cf c0 k) (cf %s k) else cf c0 k" % (T, T, f, A),
                                   "forall k. length %s <= k < length c0 -> c0[k] = fzero" % T], "dg %s + 1 - i" % A, after="pol_ext (tp %s) (%s (tp c0) (tp %s));" % (T, g, A))}, **B))
for o, f in (("*=", "fmul"), ("/=", "fdiv")):
    E = ["length %s = length %s" % (T, OT), "tp %s = pscale (%s) (tp %s)" % (T, "a" if o == "*=" else "fdiv fone a", OT)] 
    U.append(FSpec("Poly::operator%s(FFInt)" % o, ["a"], ne(T) + (["a <> fzero"] if o == "/=" else []), E, writes=["this"], entry="let ghost c0 = %s in" % T,
                   loops={0: Loop(["length %s = length c0" % T, "0 <= i <= dg c0 + 1", "forall k. 0 <= k < length %s -> %s[k] = if k < i then %s c0[k] a else c0[k]" % (T, T, f), "i <= dg c0 -> dg %s = dg c0 \\/ a = fzero" % T], "dg c0 + 1 - i",
                                  after="pol_ext (tp %s) (pscale (%s) (tp c0));" % (T, "a" if o == "*=" else "fdiv fone a"))},
                   alias={"a": ("this", (("f", "poly_coeff"), ("i", "(length %s - 1)" % T)), "%s[length %s - 1]" % (T, T), "c0[length c0 - 1]")} if o == "/=" else None, **B))
U.append(FSpec("operator*(Poly,FFInt)", ["a", "b"], ne(A), ["length %s = length %s" % (R, A), "tp %s = pscale b (tp %s)" % (R, A)], **B))
U.append(FSpec("operator/(Poly,FFInt)", ["a", "b"], ne(A) + ["b <> fzero"], ["length %s = length %s" % (R, A), "tp %s = pscale (fdiv fone b) (tp %s)" % (R, A)], **B))
U.append(FSpec("operator+(Poly,Poly)", ["a", "b"], ne(A, Bc), ["length %s >= 1" % R, "tp %s = padd (tp %s) (tp %s)" % (R, A, Bc)], **B))
U.append(FSpec("operator-(Poly,Poly)", ["a", "b"], ne(A, Bc), ["length %s >= 1" % R, "tp %s = psub (tp %s) (tp %s)" % (R, A, Bc)], **B))
FIT = "fits (dg %s) (dg %s)"
U.append(FSpec("Poly::operator*=(Poly)", ["a"], ne(T, A) + [FIT % (T, A)], ["length %s = (dg %s + 1) * (dg %s + 1)" % (T, OT, A), "tp %s = pmul (tp %s) (tp %s)" % (T, OT, A), "length %s >= 1" % T, "dg %s <= dg %s + dg %s" % (T, OT, A)], writes=["this"], entry="let ghost c0 = %s in let ghost t0 = this in" % T, alias={"a": ("this", (), "this", "t0")},
    loops={0: Loop(["0 <= i <= length tmp_coeff", "length tmp_coeff = (dg c0 + 1) * (dg %s + 1)" % A, "this = t0", "forall k. 0 <= k < i -> tmp_coeff[k] = coefp (pmul (tp c0) (tp %s)) k" % A], "length tmp_coeff - i",
                   after="product_fits c0 %s tmp_coeff;" % A),
           1: Loop(["0 <= j <= i + 1", "length tmp_coeff = (dg c0 + 1) * (dg %s + 1)" % A, "this = t0", "this_coeff = csum (tp c0) (tp %s) i j" % A, "forall k. 0 <= k < i -> tmp_coeff[k] = coefp (pmul (tp c0) (tp %s)) k" % A,
                    "j >= 1 -> tmp_coeff[i] = this_coeff"], "i + 1 - j", end="csum_step (tp c0) (tp %s) i j;" % A)}, **B))
U.append(FSpec("operator*(Poly,Poly)", ["a", "b"], ne(A, Bc) + [FIT % (A, Bc)], ["length %s = (dg %s + 1) * (dg %s + 1)" % (R, A, Bc), "tp %s = pmul (tp %s) (tp %s)" % (R, A, Bc), "length %s >= 1" % R, "dg %s <= dg %s + dg %s" % (R, A, Bc)], **B))
Z, F1, S2 = "z.poly_coeff", "result.first.poly_coeff", "result.second.poly_coeff"
BIG = "67108864"
DIV = ["nonzero " + Z, "dg %s <= %s" % (A, BIG), "dg %s <= %s" % (Z, BIG)]
DE = lambda q, r, z: ["tp a.poly_coeff = padd (pmul (tp %s) (tp %s)) (tp %s)" % (q, z, r), "degle (tp %s) (dg %s - 1)" % (r, z)]
GI, Sc = "gi.poly_coeff", "s.poly_coeff"
NEWG = "psub (pscale (fofint 2) (tp g0)) (pmul (pmul (tp g0) (tp g0)) (tp f.poly_coeff))"
U.append(FSpec("fast_euclidean_division(Poly,Poly)", ["a", "z"], ne(A, Z) + DIV, ["length %s >= 1" % F1, "length %s >= 1" % S2] + DE(F1, S2, Z),
    loops={0: Loop(["1 <= i <= k + 1", "length %s >= 1" % GI, "isone (pmul (tp f.poly_coeff) (tp %s)) (power 2 (i - 1))" % GI, "degle (tp %s) (power 2 (i - 1) - 1)" % GI], "k + 1 - i", before="monic %s (pure { %s[.. dg %s + 1] }) %s; assert { f.poly_coeff[0] = fone }; start f.poly_coeff %s; clog_27 (m + 1); assert { k = clog (m + 1) /\\ k <= 27 };" % (Z, Z, Z, Bc, GI),
                   begin="let ghost g0 = %s in pow2_mono i k; assert { dg g0 <= power 2 (i - 1) - 1 }; assert { dg g0 <= 134217728 /\\ i <= 28 };" % GI, end="newton (tp f.poly_coeff) (tp g0) (tp %s) (power 2 (i - 1));" % GI),
           1: Loop(["length %s >= 1" % GI, "agree (tp %s) (%s) (power 2 i)" % (GI, NEWG)], "length " + GI),
           2: Loop(["length %s >= 1" % Sc, "agree (tp %s) (pmul (tp (rv %s)) (tp %s)) (m + 1)" % (Sc, A, GI)], "length " + Sc, after="let ghost s2 = %s in front %s f.poly_coeff %s s2 m;" % (Sc, A, GI)),
           3: Loop(["1 <= i <= exp + 1", "length %s = length sr + i - 1" % Sc, "forall j. 0 <= j < length %s -> %s[j] = if j < i - 1 then fzero else sr[j - i + 1]" % (Sc, Sc)], "exp + 1 - i", before="let ghost sr = %s in" % Sc, after="finish %s %s %s f.poly_coeff %s s2 %s m;" % (A, Z, Bc, GI, Sc))}, **B))
U.append(FSpec("operator/(Poly,Poly)", ["a", "b"], ne(A, Bc) + [x.replace("z.", "b.") for x in DIV], ["length %s >= 1" % R, "exists r. tp a.poly_coeff = padd (pmul (tp %s) (tp %s)) r /\\ degle r (dg %s - 1)" % (R, Bc, Bc)], **B))
U.append(FSpec("operator%(Poly,Poly)", ["a", "b"], ne(A, Bc) + [x.replace("z.", "b.") for x in DIV], ["length %s >= 1" % R, "exists q. tp a.poly_coeff = padd (pmul q (tp %s)) (tp %s)" % (Bc, R), "degle (tp %s) (dg %s - 1)" % (R, Bc)], **B))
C, D = "c.poly_coeff", "d.poly_coeff"
GCD = "forall p. pdvd p (tp %s) /\\ pdvd p (tp %s) -> pdvd p (tp %s) /\\ pdvd p (tp %s)" % (A, Bc, C, D)
U.append(FSpec("gcd(Poly,Poly)", ["c", "d"], ne(C, D) + ["dg %s <= %s" % (C, BIG), "dg %s <= %s" % (D, BIG)],
    ["length %s >= 1" % R, "pdvd (tp %s) (tp %s)" % (R, C), "pdvd (tp %s) (tp %s)" % (R, D), "comb (tp %s) (tp %s) (tp %s)" % (R, C, D)],
    loops={0: Loop(["length %s >= 1" % A, "length %s >= 1" % Bc, "dg %s <= %s" % (A, BIG), "dg %s <= %s" % (Bc, BIG), GCD, "comb (tp %s) (tp %s) (tp %s)" % (A, C, D), "comb (tp %s) (tp %s) (tp %s)" % (Bc, C, D)],
                   "rank " + Bc, begin="let ghost a0 = %s in let ghost b0 = %s in" % (A, Bc), end="rank_less b0 %s; gcd_step a0 b0 %s (tp %s) (tp %s);" % (Bc, Bc, C, D), after="iszero_dvd %s %s;" % (A, Bc))}, **B))
GROUPS = [dict(unit="u_poly.cpp", specs=U)]
FACTS = ["lean/FieldLaws.lean", "lean/PolyLaws.lean"]
HARNESS = [dict(src="c08.cpp", repo=["Poly.cpp", "FFInt.cpp", "ReconstHelper.cpp"], budget=(6, 60))]
NOTE = "Contracts on every arithmetic member and operator of Poly (degree, trimming, reversal, +, -, scalar and polynomial products, scalar division, aliased operands included), on fast_euclidean_division (a = q b + r with deg r < deg b, by Newton iteration for the inverse of the reversed divisor) and on gcd (divides both arguments and is a combination of them), for coefficient lists of any length, with or without trailing zeros, over an abstract field. The facts about F[X] are Mathlib theorems. Degrees are bounded by 2^26 for division and gcd."
ASSUMPTIONS = ["The field operations of FFInt are taken by their contracts (proved under C01, C02); the ring and field laws used are checked by Lean 4 for every field (lean/FieldLaws.lean, compared with the theory on every run).",
               "Facts about polynomials (theories/polylaws.mlw) are proved for Mathlib's F[X] in lean/PolyLaws.lean (theorems of the same names).",
               "log2, ceil and exp2 on doubles are exact as used: ceil(log2(n)) is the rounded-up binary logarithm for 1 <= n <= 2^32, exp2(k) = 2^k for k <= 52; integers below 2^52 are exact (libm is trusted).",
               "std::reverse reverses; std::vector grows as specified (insert, emplace, resize, pop_back); allocation does not fail.",
               "Coefficient lists are nonempty, as every constructor call of the library makes them; shrink_to_fit and rev are called on nonzero polynomials; degrees of division and gcd are at most 2^26.",
               "Poly::roots (randomised root finding, p/2 iterations) and printing are not covered."]
