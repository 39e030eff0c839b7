"""C10: dense linear algebra (DenseSolver.hpp)."""
from common import CORE
from cxx2why import FSpec, Loop
B = dict(ff="abs", use=["ffield.Field", "fflaws.Laws", "linalg.Dot", "linalg.Gauss"])
M = "vec<vec<FFInt>>"
S = "shape a n (n + 1)"
st = ["shape a n (n + 1)", "length a = length a0"]
U = []
U.append(FSpec("solve_gauss_system(%s,u32,bool)" % M, ["a", "n", "force"], ["1 <= n <= 1000000000", S, "regular a n (n + 1)"],
               ["length result = n", "forall r. 0 <= r < n -> dot (old a)[r] result 0 n = (old a)[r][n]"],
               writes=["a"], entry="let ghost a0 = a in",
               loops={0: Loop(["0 <= i <= n", "equiv a0 a n (n + 1)", "upper a n i", "pivots a i"] + st, "n - i"),
                      1: Loop(["i + 1 <= k <= n", "i <= max_row < n", "max_el = a[max_row][i]", "forall r. i <= r < k -> fto a[r][i] <= fto max_el"], "n - k"),
                      2: Loop(["i <= k <= n + 1"] + st + [
                          "forall r c. 0 <= r < n -> r <> i -> r <> max_row -> 0 <= c <= n -> a[r][c] = a1[r][c]",
                          "forall c. 0 <= c <= n -> a[i][c] = if i <= c < k then a1[max_row][c] else a1[i][c]",
                          "forall c. 0 <= c <= n -> a[max_row][c] = if i <= c < k then a1[i][c] else a1[max_row][c]"], "n + 1 - k", before="""let ghost a1 = a in let ghost mr = max_row in
regular_equiv a0 a1 n (n + 1);
if feq a1[mr][i] fzero then begin assert { forall r. i <= r < n -> a1[r][i] = fzero }; pivot_exists a1 i n (n + 1) end;""",
                              after="""equiv_swap a1 a i max_row n (n + 1);
assert { forall r. 0 <= r < n -> length a[r] >= n + 1 }; assert { a[i][i] <> fzero }; assert { upper a n i }; assert { pivots a (i + 1) };"""),
                      3: Loop(["i + 1 <= k <= n", "equiv a0 a n (n + 1)", "upper a n i", "pivots a (i + 1)", "forall r. i < r < k -> a[r][i] = fzero"] + st, "n - k",
                              begin="let ghost a2 = a in"),
                      4: Loop(["i <= j <= n + 1"] + st + [
                          "forall r c. 0 <= r < n -> r <> k -> 0 <= c <= n -> a[r][c] = a2[r][c]",
                          "forall q. 0 <= q <= n -> a[k][q] = if i <= q < j then fadd a2[k][q] (fmul c a2[i][q]) else a2[k][q]",
                          "i < j -> a[k][i] = fzero"], "n + 1 - j", before="law_elim a2[k][i] a2[i][i];", after="equiv_axpy a2 a i k c n (n + 1); equiv_trans a0 a2 a n (n + 1);"),
                      5: Loop(["-1 <= i < n", "length results = n"] + st + [
                          "forall r c. 0 <= r < n -> 0 <= c < n -> a[r][c] = a3[r][c]",
                          "forall r. 0 <= r <= i -> a[r][n] = fsub a3[r][n] (dot a3[r] results (i + 1) n)",
                          "forall r. i < r < n -> dot a3[r] results r n = a3[r][n]"], "i + 1", after="solved a0 a3 results n;",
                              before="let ghost a3 = a in", begin="let ghost a4 = a in let ghost res4 = results in"),
                      6: Loop(["-1 <= k < i"] + st + [
                          "forall r c. 0 <= r < n -> 0 <= c < n -> a[r][c] = a3[r][c]",
                          "forall r. 0 <= r < n -> a[r][n] = if k < r < i then fsub a4[r][n] (fmul a3[r][i] results[i]) else a4[r][n]"], "k + 1",
                              after="""law_back_step a3[i][i] a3[i][n] (dot a3[i] res4 (i + 1) n);
assert { forall r. 0 <= r < n -> dot a3[r] results (i + 1) n = dot a3[r] res4 (i + 1) n };
assert { forall r. i < r < n -> dot a3[r] results r n = dot a3[r] res4 r n };
assert { forall r. 0 <= r < n -> dot a3[r] results i n = fadd (fmul a3[r][i] results[i]) (dot a3[r] results (i + 1) n) };
assert { dot a3[i] results i n = a3[i][n] };""")},
               **B))
SI = ["shape a n (2 * n)", "length a = n"]
CR = "0 <= r < n -> n <= c < 2 * n"
U.append(FSpec("calc_inverse(%s,u32)" % M, ["a", "n_"], ["1 <= n_ <= 1000000000", "length a = n_", "forall r. 0 <= r < n_ -> length a[r] = n_", "regular a n_ n_"],
               ["length a = n_", "forall r. 0 <= r < n_ -> length a[r] = n_",
                "forall r q. 0 <= r < n_ -> 0 <= q < n_ -> dot (old a)[r] (col a q n_) 0 n_ = if r = q then fone else fzero"],
               writes=["a"], entry="let ghost a0 = a in let ghost ref aug = a in",
               loops={0: Loop(["0 <= i <= n", "length a = n", "forall r. i <= r < n -> a[r] = a0[r]", "forall r. 0 <= r < i -> length a[r] = 2 * n",
                               "forall r c. 0 <= r < i -> 0 <= c < n -> a[r][c] = a0[r][c]",
                               "forall r c. 0 <= r < i -> n <= c < 2 * n -> a[r][c] = if c - n = r then fone else fzero"], "n - i",
                              begin="let ghost ab = a in"),
                      1: Loop(["0 <= i <= n", "equiv aug a n (2 * n)", "upper a n i", "pivots a i", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI, "n - i",
                              before="aug <- a; assert { augmented aug a0 n }; regular_augmented aug a0 n;"),
                      2: Loop(["i + 1 <= k <= n", "i <= max_row < n", "max_el = a[max_row][i]", "forall r. i <= r < k -> fto a[r][i] <= fto max_el"], "n - k"),
                      3: Loop(["i <= k <= 2 * n", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI + [
                          "forall r c. 0 <= r < n -> r <> i -> r <> max_row -> 0 <= c < 2 * n -> a[r][c] = a1[r][c]",
                          "forall c. 0 <= c < 2 * n -> a[i][c] = if i <= c < k then a1[max_row][c] else a1[i][c]",
                          "forall c. 0 <= c < 2 * n -> a[max_row][c] = if i <= c < k then a1[i][c] else a1[max_row][c]"], "2 * n - k", before="""let ghost a1 = a in let ghost mr = max_row in
regular_equiv aug a1 n (2 * n);
if feq a1[mr][i] fzero then begin assert { forall r. i <= r < n -> a1[r][i] = fzero }; pivot_exists a1 i n (2 * n) end;""",
                              after="""equiv_swap a1 a i max_row n (2 * n); equiv_trans aug a1 a n (2 * n);
assert { a[i][i] <> fzero }; assert { upper a n i }; assert { pivots a (i + 1) };"""),
                      4: Loop(["i + 1 <= k <= n", "equiv aug a n (2 * n)", "upper a n i", "pivots a (i + 1)", "forall r. i < r < k -> a[r][i] = fzero", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI, "n - k",
                              begin="let ghost a2 = a in"),
                      5: Loop(["i <= j <= 2 * n", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI + [
                          "forall r c. 0 <= r < n -> r <> k -> 0 <= c < 2 * n -> a[r][c] = a2[r][c]",
                          "forall q. 0 <= q < 2 * n -> a[k][q] = if i <= q < j then fadd a2[k][q] (fmul c a2[i][q]) else a2[k][q]",
                          "i < j -> a[k][i] = fzero"], "2 * n - j", before="law_elim a2[k][i] a2[i][i];", after="equiv_axpy a2 a i k c n (2 * n); equiv_trans aug a2 a n (2 * n);"),
                      6: Loop(["-1 <= i < n", "length res = n", "forall r. 0 <= r < n -> length res[r] = n", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI + [
                          "forall r c. 0 <= r < n -> 0 <= c < n -> a[r][c] = a3[r][c]",
                          "forall r c. 0 <= r <= i -> n <= c < 2 * n -> a[r][c] = fsub a3[r][c] (dot a3[r] (col res (c - n) n) (i + 1) n)",
                          "forall r c. i < r < n -> n <= c < 2 * n -> dot a3[r] (col res (c - n) n) r n = a3[r][c]"], "i + 1",
                              before="let ghost a3 = a in assert { forall r c. 0 <= r < n -> dot a3[r] (col res c n) n n = fzero };", begin="let ghost a4 = a in let ghost res4 = res in",
                              after="""let rec cols (q : int) : unit requires { 0 <= q <= n } ensures { forall r k. q <= k < n -> 0 <= r < n -> dot a0[r] (col res k n) 0 n = if r = k then fone else fzero } variant { n - q }
= if q < n then begin assert { forall r. 0 <= r < n -> dot a3[r] (col res q n) r n = a3[r][n + q] by n <= n + q < 2 * n /\\ (n + q) - n = q }; inverted a0 aug a3 (col res q n) q n; cols (q + 1) end in cols 0;"""),
                      7: Loop(["n <= k <= 2 * n", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI + [
                          "forall r c. 0 <= r < n -> r <> i -> 0 <= c < 2 * n -> a[r][c] = a4[r][c]",
                          "forall c. 0 <= c < 2 * n -> a[i][c] = if n <= c < k then fdiv a4[i][c] a3[i][i] else a4[i][c]"], "2 * n - k"),
                      8: Loop(["-1 <= row_mod < i", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI + [
                          "forall c. n <= c < 2 * n -> a[i][c] = fdiv a4[i][c] a3[i][i]",
                          "forall r c. 0 <= r < n -> 0 <= c < n -> a[r][c] = a3[r][c]",
                          "forall r c. 0 <= r < n -> r <> i -> n <= c < 2 * n -> a[r][c] = if row_mod < r < i then fsub a4[r][c] (fmul a[i][c] a3[r][i]) else a4[r][c]"], "row_mod + 1",
                              begin="let ghost a6 = a in"),
                      9: Loop(["n <= column_mod <= 2 * n", "forall r. 0 <= r < n -> length a[r] >= 2 * n"] + SI + [
                          "forall r c. 0 <= r < n -> r <> row_mod -> 0 <= c < 2 * n -> a[r][c] = a6[r][c]",
                          "forall c. 0 <= c < n -> a[row_mod][c] = a6[row_mod][c]",
                          "forall c. n <= c < 2 * n -> a[row_mod][c] = if c < column_mod then fsub a6[row_mod][c] (fmul a6[i][c] a3[row_mod][i]) else a6[row_mod][c]"], "2 * n - column_mod"),
                      10: Loop(["n <= k <= 2 * n", "length res = n", "forall r. 0 <= r < n -> length res[r] = n",
                                "forall r. 0 <= r < n -> r <> i -> res[r] = res4[r]", "forall c. n <= c < k -> res[i][c - n] = a[i][c]"], "2 * n - k",
                               after="""assert { forall r c. 0 <= r < n -> n <= c < 2 * n -> dot a3[r] (col res (c - n) n) (i + 1) n = dot a3[r] (col res4 (c - n) n) (i + 1) n };
assert { forall r c. i < r < n -> n <= c < 2 * n -> dot a3[r] (col res (c - n) n) r n = dot a3[r] (col res4 (c - n) n) r n };
assert { forall c. n <= c < 2 * n -> (col res (c - n) n)[i] = a[i][c] };
assert { forall r c. 0 <= r < n -> n <= c < 2 * n -> dot a3[r] (col res (c - n) n) i n = fadd (fmul a3[r][i] a[i][c]) (dot a3[r] (col res (c - n) n) (i + 1) n) };
assert { forall c. n <= c < 2 * n -> dot a3[i] (col res (c - n) n) i n = a3[i][c] };""")},
               **B))
BL = dict(ff="abs", use=["ffield.Field", "fflaws.Laws", "linalg.Dot", "linalg.Gauss", "linalg.LU"])
BD = dict(ff="abs", use=["ffield.Field", "fflaws.Laws", "linalg.Dot", "linalg.Gauss", "linalg.LU", "linalg.Det"])
SL = ["shape a n n", "forall r. 0 <= r < n -> length a[r] >= n"]
ST = "fadd (dot a[r] (ucol a c n) 0 (min i r)) (if c >= min i r then a[r][c] else fzero)"
SG = "signed (p[n] - n)"
U.append(FSpec("calc_lu_decomposition(%s,vec<i32>,u32)" % M, ["a", "p", "n"], ["1 <= n <= 1000000000", "shape a n n"],
               ["shape a n n", "length p = n + 1", "perm p n", "n <= p[n] <= 2 * n", "is_lu a p (old a) n",
                "det (old a) n = %s (diag a n)" % SG],
               writes=["a", "p"], entry="let ghost a0 = a in",
               loops={0: Loop(["0 <= i <= n + 1", "length p = n + 1", "forall r. 0 <= r < i -> p[r] = r"], "n + 1 - i"),
                      1: Loop(["0 <= i <= n", "length p = n + 1", "perm p n", "n <= p[n] <= n + i", "lu_state a p a0 i n",
                               "det a0 n = %s (det (trunc a i 0 n) n)" % SG] + SL, "n - i", before="trunc_start a n;", begin="let ghost a1 = a in let ghost p1 = p in"),
                      2: Loop(["i <= k <= n", "i <= max_row < n", "forall r. i <= r < k -> fto a[r][i] <= fto max_el",
                               "max_el = fzero /\\ max_row = i \\/ max_el = a[max_row][i]"], "n - k"),
                      3: Loop(["i + 1 <= j <= n", "length p = n + 1", "forall r c. 0 <= r <= i -> 0 <= c < n -> a[r][c] = a2[r][c]",
                               "forall r c. j <= r < n -> 0 <= c < n -> a[r][c] = a2[r][c]", "forall r c. i < r < n -> 0 <= c < i -> a[r][c] = a2[r][c]",
                               "forall r c. 0 <= r < n -> 0 <= c < n -> not (i < r < j) -> a0[p[r]][c] = " + ST,
                               "forall r c. i < r < j -> 0 <= c < n -> a0[p[r]][c] = fadd (dot a[r] (ucol a c n) 0 (i + 1)) (if c >= i + 1 then a[r][c] else fzero)",
                               "det a0 n = %s (det (trunc a i j n) n)" % SG] + SL, "n - j",
                              before="""let ghost a2 = a in
assert { length p = n + 1 /\\ p[i] = p1[max_row] /\\ p[max_row] = p1[i] /\\ (forall r. 0 <= r < n -> r <> i -> r <> max_row -> p[r] = p1[r]) };
assert { perm p n };
assert { n <= length a2 /\\ a2[i] = a1[max_row] /\\ a2[max_row] = a1[i] /\\ (forall r. 0 <= r < n -> r <> i -> r <> max_row -> a2[r] = a1[r]) };
assert { forall r. 0 <= r < n -> vec_ok a2[r] };
assert { max_row <> i -> p[n] = p1[n] + 1 };
assert { max_row = i -> p[n] = p1[n] };
assert { forall r. i <= r < n -> fto a1[r][i] <= fto max_el };
assert { a2[i][i] = max_el };
assert { a2[i][i] = fzero -> forall r. i <= r < n -> a2[r][i] = fzero };
if max_row <> i then trunc_swap a1 a2 i max_row n (p1[n] - n);
assert { forall r c k. 0 <= r < n -> 0 <= c < n -> 0 <= k < i -> (ucol a2 c n)[k] = (ucol a1 c n)[k] };
assert { forall r c. 0 <= r < n -> 0 <= c < n -> r < i -> dot a2[r] (ucol a2 c n) 0 (min i r) = dot a1[r] (ucol a1 c n) 0 (min i r) };
assert { forall r c. 0 <= c < n -> i <= r < n -> r <> i -> r <> max_row -> dot a2[r] (ucol a2 c n) 0 i = dot a1[r] (ucol a1 c n) 0 i };
assert { forall c. 0 <= c < n -> dot a2[i] (ucol a2 c n) 0 i = dot a1[max_row] (ucol a1 c n) 0 i };
assert { forall c. 0 <= c < n -> dot a2[max_row] (ucol a2 c n) 0 i = dot a1[i] (ucol a1 c n) 0 i };
assert { lu_state a2 p a0 i n };
trunc_next a2 i n;""", begin="let ghost a3 = a in", after="""trunc_next a i n;
assert { forall r c. 0 <= r <= i -> 0 <= c < n -> a0[p[r]][c] = fadd (dot a[r] (ucol a c n) 0 r) (if c >= r then a[r][c] else fzero) };
assert { forall r c. i < r < n -> 0 <= c < n -> a0[p[r]][c] = fadd (dot a[r] (ucol a c n) 0 (i + 1)) (if c >= i + 1 then a[r][c] else fzero) };
assert { forall r. 0 <= r <= i -> min (i + 1) r = r }; assert { forall r. i < r -> min (i + 1) r = i + 1 };
assert { lu_state a p a0 (i + 1) n };"""),
                      4: Loop(["i + 1 <= k <= n", "forall r c. 0 <= r < n -> 0 <= c < n -> r <> j -> a[r][c] = a3[r][c]", "forall c. 0 <= c < i -> a[j][c] = a3[j][c]",
                               "a[j][i] = fdiv a3[j][i] a3[i][i]",
                               "forall c. i < c < n -> a[j][c] = if c < k then fsub a3[j][c] (fmul a[j][i] a3[i][c]) else a3[j][c]"] + SL, "n - k",
                              before="assert { length a = length a3 }; assert { forall r. 0 <= r < length a -> r <> j -> a[r] = a3[r] }; assert { length a[j] = length a3[j] }; assert { vec_ok a[j] };",
                              begin="let ghost a5 = a in", end="assert { length a = length a5 }; assert { forall r. 0 <= r < length a -> r <> j -> a[r] = a5[r] }; assert { length a[j] = length a5[j] }; assert { vec_ok a[j] };",
                              after="""lu_step_row a3 a a0 p i j n; trunc_row a3 a i j n;
assert { forall r c k. 0 <= r < n -> 0 <= c < n -> 0 <= k <= i -> (ucol a c n)[k] = (ucol a3 c n)[k] };
assert { forall r c. 0 <= r < n -> 0 <= c < n -> r <> j -> dot a[r] (ucol a c n) 0 (min i r) = dot a3[r] (ucol a3 c n) 0 (min i r) };
assert { forall r c. 0 <= r < n -> 0 <= c < n -> r <> j -> dot a[r] (ucol a c n) 0 (i + 1) = dot a3[r] (ucol a3 c n) 0 (i + 1) };""")},
               exit="trunc_end a n;", **BD))
U.append(FSpec("calc_determinant_lu(%s,vec<i32>,u32)" % M, ["a", "p", "n"], ["1 <= n <= 1000000000", "shape a n n", "length p >= n + 1", "n <= p[n]"],
               ["result = signed (p[n] - n) (diag a n)"],
               loops={0: Loop(["1 <= i <= n", "det = diag a i"], "n - i", before="assert { diag a 1 = fmul fone a[0][0] };")}, **BD))
X = "forall a0. is_lu a p a0 n -> "
U.append(FSpec("solve_lu(%s,vec<i32>,vec<FFInt>,u32)" % M, ["a", "p", "b", "n"], ["1 <= n <= 1000000000", "shape a n n", "pivots a n", "perm p n", "length b >= n"],
               ["length result = n", X + "solves a0 result b n"],
               loops={0: Loop(["0 <= i <= n", "length x = n", "forall r. 0 <= r < i -> x[r] = fsub b[p[r]] (dot a[r] x 0 r)"], "n - i", begin="let ghost x0 = x in"),
                      1: Loop(["0 <= k <= i", "length x = n", "forall r. 0 <= r < n -> r <> i -> x[r] = x0[r]", "x[i] = fsub b[p[i]] (dot a[i] x 0 k)"], "i - k",
                              begin="let ghost x1 = x in dot_last a[i] x 0 k; law_fold b[p[i]] (dot a[i] x 0 k) a[i][k] x[k];", end="assert { dot a[i] x 0 (k + 1) = dot a[i] x1 0 (k + 1) };", after="assert { forall r. 0 <= r < n -> r <= i -> dot a[r] x 0 r = dot a[r] x0 0 r };"),
                      2: Loop(["-1 <= i < n", "length x = n", "length y = n", "forall r. 0 <= r <= i -> x[r] = y[r]", "forall r. i < r < n -> dot a[r] x r n = y[r]"], "i + 1",
                              before="let ghost y = x in", begin="let ghost x2 = x in", end="assert { dot a[i] x (i + 1) n = dot a[i] x2 (i + 1) n }; assert { forall r. i < r < n -> dot a[r] x r n = dot a[r] x2 r n }; assert { dot a[i] x i n = y[i] };",
                              after="""let ghost xf = x in
let rec rows (r : int) : unit requires { 0 <= r <= n } ensures { forall k. r <= k < n -> fadd (dot a[k] y 0 k) y[k] = b[p[k]] } variant { n - r }
= if r < n then begin law_refold b[p[r]] (dot a[r] y 0 r); rows (r + 1) end in rows 0;
let lemma fin (a0 : seq (seq ff)) requires { is_lu a p a0 n } ensures { solves a0 xf b n } = lu_solves a a0 p xf y b n in
assert { forall a0. is_lu a p a0 n -> solves a0 x b n };"""),
                      3: Loop(["i < k <= n", "length x = n", "forall r. 0 <= r < n -> r <> i -> x[r] = x2[r]", "x[i] = fsub y[i] (dot a[i] x (i + 1) k)"], "n - k", begin="let ghost x3 = x in dot_last a[i] x (i + 1) k; law_fold y[i] (dot a[i] x (i + 1) k) a[i][k] x[k];",
                              end="assert { dot a[i] x (i + 1) (k + 1) = dot a[i] x3 (i + 1) (k + 1) };", after="""assert { forall r. i < r < n -> dot a[r] x r n = dot a[r] x2 r n };
assert { dot a[i] x (i + 1) n = dot a[i] x2 (i + 1) n }; law_back_step a[i][i] y[i] (dot a[i] x (i + 1) n); let ghost x4 = x in""")},
               **BL))
CI = "create n (fun r -> ia[r][%s])"
def CC(q): return "(col ia %s n)" % q
SIA = ["length ia = n", "forall r. 0 <= r < n -> length ia[r] = n"]
DL = "(if p[r] = %s then fone else fzero)"
U.append(FSpec("calc_inverse_lu(%s,%s,vec<i32>,u32)" % (M, M), ["a", "ia", "p", "n"], ["1 <= n <= 1000000000", "shape a n n", "pivots a n", "perm p n"],
               ["length ia = n", "forall r. 0 <= r < n -> length ia[r] = n",
                "forall a0 r q. is_lu a p a0 n -> 0 <= r < n -> 0 <= q < n -> dot a0[r] (col ia q n) 0 n = if r = q then fone else fzero"],
               writes=["ia"],
               loops={0: Loop(["0 <= j <= n", "forall a0 r q. is_lu a p a0 n -> 0 <= r < n -> 0 <= q < j -> dot a0[r] (col ia q n) 0 n = if r = q then fone else fzero"] + SIA, "n - j", begin="let ghost ia0 = ia in",
                              end="assert { forall q k. 0 <= q < n -> q <> j -> 0 <= k < n -> (col ia q n)[k] = (col ia0 q n)[k] }; assert { forall q v. 0 <= q < n -> q <> j -> dot v (col ia q n) 0 n = dot v (col ia0 q n) 0 n };"),
                      1: Loop(["0 <= i <= n", "forall r c. 0 <= r < n -> 0 <= c < n -> c <> j -> ia[r][c] = ia0[r][c]",
                               "forall r. 0 <= r < i -> ia[r][j] = fsub %s (dot a[r] (col ia j n) 0 r)" % (DL % "j")] + SIA, "n - i", begin="let ghost ia1 = ia in let ghost x0 = col ia j n in"),
                      2: Loop(["0 <= k <= i", "forall r c. 0 <= r < n -> 0 <= c < n -> c <> j \\/ r <> i -> ia[r][c] = ia1[r][c]",
                               "ia[i][j] = fsub (if p[i] = j then fone else fzero) (dot a[i] (col ia j n) 0 k)"] + SIA, "i - k",
                              begin="let ghost ia2 = ia in let ghost x1 = col ia j n in dot_last a[i] x1 0 k; law_fold (if p[i] = j then fone else fzero) (dot a[i] x1 0 k) a[i][k] x1[k];",
                              end="assert { dot a[i] (col ia j n) 0 (k + 1) = dot a[i] x1 0 (k + 1) };", after="assert { forall r. 0 <= r < n -> r <= i -> dot a[r] (col ia j n) 0 r = dot a[r] x0 0 r };"),
                      3: Loop(["-1 <= i < n", "forall r c. 0 <= r < n -> 0 <= c < n -> c <> j -> ia[r][c] = ia0[r][c]",
                               "forall r. 0 <= r <= i -> ia[r][j] = y[r]", "forall r. i < r < n -> dot a[r] (col ia j n) r n = y[r]"] + SIA, "i + 1",
                              before="let ghost y = col ia j n in let ghost jj = j in let ghost b = create n (fun r -> if r = jj then fone else fzero) in", begin="let ghost ia3 = ia in let ghost x2 = col ia j n in",
                              end="assert { dot a[i] (col ia j n) (i + 1) n = dot a[i] x2 (i + 1) n }; assert { forall r. i < r < n -> dot a[r] (col ia j n) r n = dot a[r] x2 r n }; assert { dot a[i] (col ia j n) i n = y[i] };",
                              after="""let ghost xf = col ia j n in
let rec rows (r : int) : unit requires { 0 <= r <= n } ensures { forall k. r <= k < n -> fadd (dot a[k] y 0 k) y[k] = b[p[k]] } variant { n - r }
= if r < n then begin law_refold b[p[r]] (dot a[r] y 0 r); rows (r + 1) end in rows 0;
let lemma fin (a0 : seq (seq ff)) requires { is_lu a p a0 n } ensures { solves a0 xf b n } = lu_solves a a0 p xf y b n in
assert { forall a0. is_lu a p a0 n -> solves a0 xf b n };"""),
                      4: Loop(["i < k <= n", "forall r c. 0 <= r < n -> 0 <= c < n -> c <> j \\/ r <> i -> ia[r][c] = ia3[r][c]",
                               "ia[i][j] = fsub y[i] (dot a[i] (col ia j n) (i + 1) k)"] + SIA, "n - k",
                              begin="let ghost ia4 = ia in let ghost x3 = col ia j n in dot_last a[i] x3 (i + 1) k; law_fold y[i] (dot a[i] x3 (i + 1) k) a[i][k] x3[k];",
                              end="assert { dot a[i] (col ia j n) (i + 1) (k + 1) = dot a[i] x3 (i + 1) (k + 1) };", after="""assert { forall r. i < r < n -> dot a[r] (col ia j n) r n = dot a[r] x2 r n };
assert { dot a[i] (col ia j n) (i + 1) n = dot a[i] x2 (i + 1) n }; law_back_step a[i][i] y[i] (dot a[i] (col ia j n) (i + 1) n);""")},
               **BL))
GROUPS = [dict(unit="u_dense.cpp", specs=U)]
FACTS = ["lean/FieldLaws.lean", "lean/Det.lean"]
HARNESS = [dict(src="c10.cpp", repo=CORE, budget=(6, 60))]
NOTE = ("Proof for every size (up to 1e9 rows), every regular matrix and every pivoting pattern that Gauss solving and inversion are exact; the LU factors reproduce the "
        "permuted matrix for every matrix, singular or not, the determinant read off them is the Leibniz determinant with its sign, and solving and inverting with them is exact whenever the diagonal has no zero.")
ASSUMPTIONS = ["FFInt operations are abstract field operations here (their exactness is C01); division by zero gives zero as FFInt does",
               "uniqueness of the solution of a regular system is linear algebra outside the contracts (regularity is stated as: only the zero vector is mapped to zero)",
               "four facts about determinants and the ring laws are proved in Lean (lean/Det.lean, lean/FieldLaws.lean) and enter Why3 as contracts of ghost procedures"]
