"""C09: transposed Vandermonde systems (utils.cpp, PolyReconst.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
B = dict(ff="abs", opts=dict(abstype={"PolyReconst": "int"}), use=["ffield.Field", "fflaws.Laws", "vander.Vander"])
def loops(m, v, f, outer):
    CIS = "length cis = %s" % m
    return [Loop(["1 <= i <= " + m, CIS, "master cis %s %s i" % (v, m), "forall k. 0 <= k < %s - i -> cis[k] = fzero" % m], m + " - i",
                 before="master0 %s %s; let ghost c0 = make0 %s in assert { length c0 = length cis }; assert { mstep c0 cis %s (%s - 1) %s[0] }; master_step c0 cis %s %s 0;" % (v, m, m, m, m, v, v, m),
                 begin="let ghost c1 = cis in", end="master_step c1 cis %s %s i;" % (v, m)),
            Loop(["%s - 1 - i <= j <= %s - 1" % (m, m), CIS,
                  "forall k. 0 <= k < %s -> cis[k] = if %s - 1 - i <= k < j then fsub c1[k] (fmul %s[i] c1[k + 1]) else c1[k]" % (m, m, v)], m + " - 1 - j"),
            outer,
            Loop(["0 <= j < " + m, "b = hor cis %s (j + 1) %s[i]" % (m, v), "t = dd cis %s (j + 1) %s[i] %s[i]" % (m, v, v), "s = acc %s cis %s (j + 1) %s[i]" % (f, m, v)], "j",
                 end="law_comm_add (hor cis %s j %s[i]) (fmul %s[i] (dd cis %s (j + 1) %s[i] %s[i]));" % (m, v, v, m, v, v))]
U = [FSpec("PolyReconst::solve_transposed_vandermonde(vec<FFInt>,vec<FFInt>)", ["vis", "fis"], ["length vis <= 1000000000", "length fis >= length vis", "distinct vis (length vis)"],
           ["length vis > 0 -> length result = length vis", "forall x i. rhs_of fis x vis (length vis) -> 0 <= i < length vis -> result[i] = x[i]"],
           loops=dict(enumerate(loops("num_eqn", "vis", "fis",
               Loop(["0 <= i <= num_eqn", "length result_ = num_eqn", "forall x k. rhs_of fis x vis num_eqn -> 0 <= k < i -> result_[k] = x[k]"], "num_eqn - i",
                    end="let ghost ii = i in let ghost cc = cis in let lemma sol (x : seq ff) requires { rhs_of fis x vis num_eqn } ensures { result_[ii] = x[ii] } = vander_sol fis x vis cc num_eqn ii in")))), **B)]
O = dict(fields={"PolynomialFF": ["n", "coefs", "generate_new_horner", "eval_horner"]})
def shift(ls, k):
    return {i + k: l for i, l in enumerate(ls)}
NODES = "(length w = length degs /\\ forall l. 0 <= l < length degs -> w[l] = mval val_ degs[l] 1 (length val_))"
NODE = "mval val_ degs[%s] 1 (length val_)"
L = shift(loops("num_eqn", "vis", "nums",
    Loop(["0 <= i <= num_eqn", "forall k. 0 <= k < i -> fmem degs[k] poly", "forall q. fmem q poly -> exists k. 0 <= k < i /\\ degs[k] = q",
          "forall x w k. " + NODES + " -> rhs_of nums x w num_eqn -> 0 <= k < i -> fval poly degs[k] = x[k]"], "num_eqn - i",
         begin="let ghost p0 = poly in",
         end="let ghost ii = i in let ghost cc = cis in let ghost pp = poly in let lemma sol (x w : seq ff) requires { " + NODES + " } requires { rhs_of nums x w num_eqn } ensures { fval pp degs[ii] = x[ii] } = assert { w == vis }; vander_sol nums x w cc num_eqn ii in")), 2)
L[0] = Loop(["length vis = idx0", "forall k. 0 <= k < idx0 -> vis[k] = " + NODE % "k"])
L[1] = Loop(["0 <= i <= n", "vi = mval val_ degs[ix0] 1 i"], "n - i")
U2 = [FSpec("solve_vandermonde_system(vec<vec<u32>>,vec<FFInt>,vec<FFInt>)", ["degs", "nums", "val_"],
            ["1 <= length degs <= 1000000000", "length val_ < 4294967295", "length nums >= length degs", "forall k. 0 <= k < length degs -> length degs[k] > length val_",
             "forall k. 0 <= k < length degs -> %s <> fzero" % (NODE % "k"), "forall k l. 0 <= k < l < length degs -> %s <> %s" % (NODE % "k", NODE % "l")],
            ["result.polynomialff_n = length val_ + 1", "forall k. 0 <= k < length degs -> fmem degs[k] result.polynomialff_coefs",
             "forall q. fmem q result.polynomialff_coefs -> exists k. 0 <= k < length degs /\\ degs[k] = q",
             "forall x w k. " + NODES + " -> rhs_of nums x w (length degs) -> 0 <= k < length degs -> fval result.polynomialff_coefs degs[k] = x[k]"],
            ff="abs", opts=O, use=["ffield.Field", "fflaws.Laws", "vander.Vander", "cxxmap.FMap", "polyff.PolyFF"], loops=L)]
GROUPS = [dict(unit="u_pff.cpp", specs=U2), dict(unit="u_polyrec.cpp", specs=U)]
FACTS = ["lean/FieldLaws.lean"]
HARNESS = [dict(src="c09.cpp", repo=CORE + ["PolyReconst.cpp"], budget=(6, 60))]
NOTE = "Contracts on PolyReconst::solve_transposed_vandermonde and solve_vandermonde_system, discharged for every system size and all distinct nonzero nodes over an abstract field (field laws checked in Lean)."
ASSUMPTIONS = ["The field operations of FFInt are taken by their contracts (proved under C01, C02); the ring and field laws used are checked by Lean 4 for every field (lean/FieldLaws.lean, compared with the theory on every run).",
               "PolynomialFF is reduced to its members n, coefs, generate_new_horner, eval_horner: the string and parser members, which the solver does not touch, are dropped.",
               "std::unordered_map is a finite map whose emplace keeps an existing element; UintHasher only affects the order of iteration.",
               "Systems have at most 1e9 equations (the code counts downwards in an int).",
               "The callers that build the nodes (PolyReconst::build_and_solve_transposed_vandermonde, RatReconst) are not under contract for this property."]
