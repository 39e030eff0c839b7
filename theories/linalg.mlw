(* Linear algebra over the field: rows are sequences, a matrix is a sequence of rows. *)
module Dot
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws

  (* sum of r[c] * x[c] for lo <= c < hi *)
  let rec ghost function dot (r x : seq ff) (lo hi : int) : ff variant { hi - lo }
  = if lo >= hi then fzero else fadd (fmul r[lo] x[lo]) (dot r x (lo + 1) hi)

  let rec lemma dot_ext (r s x y : seq ff) (lo hi : int)
    requires { forall j. lo <= j < hi -> r[j] = s[j] /\ x[j] = y[j] } ensures { dot r x lo hi = dot s y lo hi } variant { hi - lo }
  = if lo < hi then dot_ext r s x y (lo + 1) hi

  let rec lemma dot_zero (r x : seq ff) (lo hi : int)
    requires { forall j. lo <= j < hi -> r[j] = fzero \/ x[j] = fzero } ensures { dot r x lo hi = fzero } variant { hi - lo }
  = if lo < hi then dot_zero r x (lo + 1) hi

  let rec ghost dot_axpy (r s t x : seq ff) (c : ff) (lo hi : int)
    requires { forall j. lo <= j < hi -> t[j] = fadd r[j] (fmul c s[j]) }
    ensures { dot t x lo hi = fadd (dot r x lo hi) (fmul c (dot s x lo hi)) } variant { hi - lo }
  = if lo < hi then begin
      dot_axpy r s t x c (lo + 1) hi;
      law_axpy (dot r x (lo + 1) hi) (dot s x (lo + 1) hi) r[lo] s[lo] x[lo] c
    end

  (* the leading part vanishes *)
  let rec ghost dot_skip (r x : seq ff) (lo mid hi : int)
    requires { lo <= mid <= hi } requires { forall j. lo <= j < mid -> r[j] = fzero \/ x[j] = fzero }
    ensures { dot r x lo hi = dot r x mid hi } variant { mid - lo }
  = if lo < mid then dot_skip r x (lo + 1) mid hi

  let rec ghost dot_split (r x : seq ff) (lo mid hi : int)
    requires { lo <= mid <= hi } ensures { dot r x lo hi = fadd (dot r x lo mid) (dot r x mid hi) } variant { mid - lo }
  = if lo < mid then begin
      dot_split r x (lo + 1) mid hi;
      law_assoc_add (fmul r[lo] x[lo]) (dot r x (lo + 1) mid) (dot r x mid hi)
    end

  let ghost dot_last (r x : seq ff) (lo hi : int)
    requires { lo <= hi } ensures { dot r x lo (hi + 1) = fadd (dot r x lo hi) (fmul r[hi] x[hi]) }
  = dot_split r x lo hi (hi + 1); assert { dot r x (hi + 1) (hi + 1) = fzero }; assert { dot r x hi (hi + 1) = fadd (fmul r[hi] x[hi]) fzero }
end

module Gauss
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use Dot

  predicate shape (a : seq (seq ff)) (n m : int) = n <= length a /\ forall r. 0 <= r < n -> m <= length a[r]
  (* z is annihilated by the n rows of length m *)
  predicate ker (a : seq (seq ff)) (z : seq ff) (n m : int) = forall r. 0 <= r < n -> dot a[r] z 0 m = fzero
  predicate equiv (a b : seq (seq ff)) (n m : int) = forall z : seq ff. ker a z n m <-> ker b z n m
  (* the square part of the matrix is regular: no nontrivial combination of its columns vanishes *)
  predicate regular (a : seq (seq ff)) (n m : int) =
    forall z : seq ff. (forall j. n <= j < m -> z[j] = fzero) -> ker a z n m -> forall j. 0 <= j < n -> z[j] = fzero
  predicate upper (a : seq (seq ff)) (n i : int) = forall r c. 0 <= c < i -> c < r < n -> a[r][c] = fzero
  predicate pivots (a : seq (seq ff)) (i : int) = forall j. 0 <= j < i -> a[j][j] <> fzero
  predicate same_row (r s : seq ff) (m : int) = forall j. 0 <= j < m -> r[j] = s[j]

  let ghost equiv_trans (a b c : seq (seq ff)) (n m : int) requires { equiv a b n m } requires { equiv b c n m } ensures { equiv a c n m } = ()
  let ghost regular_equiv (a b : seq (seq ff)) (n m : int) requires { regular a n m } requires { equiv a b n m } ensures { regular b n m }
  = assert { forall z. (forall j. n <= j < m -> z[j] = fzero) -> ker b z n m -> (forall j. 0 <= j < n -> z[j] = fzero) by ker a z n m }

  let ghost equiv_rows (a b : seq (seq ff)) (n m : int)
    requires { forall r. 0 <= r < n -> same_row a[r] b[r] m } ensures { equiv a b n m }
  = assert { forall z r. 0 <= r < n -> dot a[r] z 0 m = dot b[r] z 0 m }

  let ghost equiv_swap (a b : seq (seq ff)) (i k n m : int)
    requires { 0 <= i < n /\ 0 <= k < n } requires { same_row b[i] a[k] m } requires { same_row b[k] a[i] m }
    requires { forall r. 0 <= r < n -> r <> i -> r <> k -> same_row b[r] a[r] m } ensures { equiv a b n m }
  = assert { forall z. dot b[i] z 0 m = dot a[k] z 0 m };
    assert { forall z. dot b[k] z 0 m = dot a[i] z 0 m };
    assert { forall z r. 0 <= r < n -> r <> i -> r <> k -> dot b[r] z 0 m = dot a[r] z 0 m };
    assert { forall z. ker a z n m -> ker b z n m };
    assert { forall z. ker b z n m -> forall r. 0 <= r < n -> (dot a[r] z 0 m = fzero by if r = i then dot b[k] z 0 m = fzero else if r = k then dot b[i] z 0 m = fzero else dot b[r] z 0 m = fzero) }

  let lemma axpy_row (a b : seq (seq ff)) (z : seq ff) (i k : int) (c : ff) (m : int)
    requires { forall j. 0 <= j < m -> b[k][j] = fadd a[k][j] (fmul c a[i][j]) }
    ensures { dot b[k] z 0 m = fadd (dot a[k] z 0 m) (fmul c (dot a[i] z 0 m)) }
  = dot_axpy a[k] a[i] b[k] z c 0 m

  let ghost equiv_axpy (a b : seq (seq ff)) (i k : int) (c : ff) (n m : int)
    requires { 0 <= i < n /\ 0 <= k < n /\ i <> k } requires { forall j. 0 <= j < m -> b[k][j] = fadd a[k][j] (fmul c a[i][j]) }
    requires { forall r. 0 <= r < n -> r <> k -> same_row b[r] a[r] m } ensures { equiv a b n m }
  = assert { forall z r. 0 <= r < n -> r <> k -> dot b[r] z 0 m = dot a[r] z 0 m };
    assert { forall z. dot b[k] z 0 m = fadd (dot a[k] z 0 m) (fmul c (dot a[i] z 0 m)) };
    assert { forall z. ker a z n m -> ker b z n m by dot a[k] z 0 m = fzero /\ dot a[i] z 0 m = fzero };
    assert { forall z. ker b z n m -> ker a z n m by dot b[k] z 0 m = fzero /\ dot a[i] z 0 m = fzero }

  let ghost equiv_scale (a b : seq (seq ff)) (i : int) (n m : int)
    requires { 0 <= i < n } requires { a[i][i] <> fzero }
    requires { forall z. dot a[i] z 0 m = fzero <-> dot b[i] z 0 m = fzero }
    requires { forall r. 0 <= r < n -> r <> i -> same_row b[r] a[r] m } ensures { equiv a b n m }
  = assert { forall z r. 0 <= r < n -> r <> i -> dot b[r] z 0 m = dot a[r] z 0 m }

  (* back substitution: completes z[i..] to a vector annihilated by the rows 0..i-1 *)
  let rec ghost complete (a : seq (seq ff)) (z : seq ff) (i n m : int) : seq ff
    requires { 0 <= i <= n <= m } requires { length z = m } requires { upper a n i } requires { pivots a i }
    ensures { length result = m } ensures { forall j. i <= j < m -> result[j] = z[j] }
    ensures { forall r. 0 <= r < i -> dot a[r] result 0 m = fzero } variant { i }
  = if i = 0 then z else begin
      let k = i - 1 in
      let s = dot a[k] z i m in
      let y = z[k <- fdiv (fsub fzero s) a[k][k]] in
      assert { dot a[k] y i m = s };
      assert { dot a[k] y k m = fadd (fmul a[k][k] y[k]) s };
      law_back_step a[k][k] fzero s;
      let w = complete a y k n m in
      assert { dot a[k] w k m = dot a[k] y k m };
      dot_skip a[k] w 0 k m;
      assert { dot a[k] w 0 m = fzero };
      w
    end

  (* a regular matrix has a nonzero entry to pivot on *)
  let ghost pivot_exists (a : seq (seq ff)) (i n m : int)
    requires { 0 <= i < n <= m } requires { upper a n i } requires { pivots a i } requires { regular a n m }
    requires { forall r. i <= r < n -> a[r][i] = fzero } ensures { false }
  = let z = create m (fun j -> if j = i then fone else fzero) in
    let w = complete a z i n m in
    let rec rows (r : int) : unit requires { i <= r <= n } ensures { forall k. r <= k < n -> dot a[k] w 0 m = fzero } variant { n - r }
    = if r < n then begin assert { forall j. 0 <= j < m -> a[r][j] = fzero \/ w[j] = fzero }; rows (r + 1) end in
    rows i;
    assert { ker a w n m };
    assert { w[i] = fone }

  (* the solution of the triangular system solves the original one *)
  let ghost solved (a0 a : seq (seq ff)) (x : seq ff) (n : int)
    requires { 0 <= n } requires { length x = n } requires { equiv a0 a n (n + 1) } requires { upper a n n }
    requires { forall r. 0 <= r < n -> dot a[r] x r n = a[r][n] }
    ensures { forall r. 0 <= r < n -> dot a0[r] x 0 n = a0[r][n] }
  = let z = snoc x (fneg fone) in
    let rec fwd (r : int) : unit requires { 0 <= r <= n } ensures { forall k. r <= k < n -> dot a[k] z 0 (n + 1) = fzero } variant { n - r }
    = if r < n then begin
        dot_skip a[r] x 0 r n; assert { dot a[r] z 0 n = dot a[r] x 0 n }; dot_last a[r] z 0 n;
        law_sub_to_zero (dot a[r] x 0 n) a[r][n]; fwd (r + 1) end in
    fwd 0;
    assert { ker a z n (n + 1) };
    assert { ker a0 z n (n + 1) };
    let rec bwd (r : int) : unit requires { 0 <= r <= n } ensures { forall k. r <= k < n -> dot a0[k] x 0 n = a0[k][n] } variant { n - r }
    = if r < n then begin
        assert { dot a0[r] z 0 n = dot a0[r] x 0 n }; dot_last a0[r] z 0 n; law_zero_to_eq (dot a0[r] x 0 n) a0[r][n]; bwd (r + 1) end in
    bwd 0

  function col (b : seq (seq ff)) (c n : int) : seq ff = create n (fun r -> b[r][c])
  predicate augmented (b a : seq (seq ff)) (n : int) = shape b n (2 * n) /\
    (forall r c. 0 <= r < n -> 0 <= c < n -> b[r][c] = a[r][c]) /\
    (forall r c. 0 <= r < n -> n <= c < 2 * n -> b[r][c] = if c - n = r then fone else fzero)

  let ghost regular_augmented (b a : seq (seq ff)) (n : int)
    requires { 0 <= n } requires { augmented b a n } requires { regular a n n } ensures { regular b n (2 * n) }
  = let rec row (z : seq ff) (r : int) : unit requires { 0 <= r < n } requires { forall j. n <= j < 2 * n -> z[j] = fzero }
      ensures { dot b[r] z 0 (2 * n) = dot a[r] z 0 n } variant { 0 }
    = dot_split b[r] z 0 n (2 * n); assert { dot b[r] z n (2 * n) = fzero }; assert { dot b[r] z 0 n = dot a[r] z 0 n } in
    let lemma rows (z : seq ff) (r : int) requires { 0 <= r < n } requires { forall j. n <= j < 2 * n -> z[j] = fzero }
      ensures { dot b[r] z 0 (2 * n) = dot a[r] z 0 n } = row z r in
    assert { forall z. (forall j. n <= j < 2 * n -> z[j] = fzero) -> ker b z n (2 * n) -> ker a z n n }

  (* dot product with (x, - e_q) *)
  let ghost dot_column (r x z : seq ff) (q n : int)
    requires { 0 <= q < n } requires { forall j. 0 <= j < n -> z[j] = x[j] }
    requires { forall j. n <= j < 2 * n -> z[j] = if j = n + q then fneg fone else fzero }
    ensures { dot r z 0 (2 * n) = fadd (dot r x 0 n) (fmul r[n + q] (fneg fone)) }
  = dot_split r z 0 n (2 * n);
    assert { dot r z 0 n = dot r x 0 n };
    dot_skip r z n (n + q) (2 * n);
    assert { dot r z (n + q + 1) (2 * n) = fzero };
    assert { dot r z (n + q) (2 * n) = fmul r[n + q] (fneg fone) }

  let ghost aug_at (b a : seq (seq ff)) (n r q : int)
    requires { augmented b a n } requires { 0 <= r < n /\ 0 <= q < n } ensures { b[r][n + q] = if r = q then fone else fzero } = ()

  (* one column of the inverse *)
  let ghost inverted (a0 b a : seq (seq ff)) (x : seq ff) (q n : int)
    requires { 0 <= q < n } requires { length x = n } requires { augmented b a0 n } requires { equiv b a n (2 * n) } requires { upper a n n }
    requires { forall r. 0 <= r < n -> dot a[r] x r n = a[r][n + q] }
    ensures { forall r. 0 <= r < n -> dot a0[r] x 0 n = if r = q then fone else fzero }
  = let z = create (2 * n) (fun j -> if j < n then x[j] else if j = n + q then fneg fone else fzero) in
    let rec fwd (r : int) : unit requires { 0 <= r <= n } ensures { forall k. r <= k < n -> dot a[k] z 0 (2 * n) = fzero } variant { n - r }
    = if r < n then begin
        dot_skip a[r] x 0 r n; dot_column a[r] x z q n;
        law_sub_to_zero (dot a[r] x 0 n) a[r][n + q]; fwd (r + 1) end in
    fwd 0;
    assert { ker a z n (2 * n) };
    assert { ker b z n (2 * n) };
    let rec bwd (r : int) : unit requires { 0 <= r <= n } ensures { forall k. r <= k < n -> dot a0[k] x 0 n = if k = q then fone else fzero } variant { n - r }
    = if r < n then begin
        assert { dot b[r] x 0 n = dot a0[r] x 0 n }; dot_column b[r] x z q n; law_zero_to_eq (dot a0[r] x 0 n) b[r][n + q];
        aug_at b a0 n r q; assert { dot a0[r] x 0 n = if r = q then fone else fzero }; bwd (r + 1) end in
    bwd 0
end

(* LU decomposition with row pivoting, stored in place: L strictly below the diagonal (unit diagonal), U on and above it. *)
module LU
  use int.Int
  use int.MinMax
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use Dot
  use Gauss

  function ucol (a : seq (seq ff)) (c n : int) : seq ff = create n (fun k -> if k <= c then a[k][c] else fzero)
  function urow (a : seq (seq ff)) (k n : int) : seq ff = create n (fun c -> if k <= c then a[k][c] else fzero)
  predicate perm (p : seq int) (n : int) = n <= length p /\ (forall r. 0 <= r < n -> 0 <= p[r] < n) /\ (forall r s. 0 <= r < s < n -> p[r] <> p[s])
  (* after i elimination steps *)
  predicate lu_state (a : seq (seq ff)) (p : seq int) (a0 : seq (seq ff)) (i n : int) =
    forall r c. 0 <= r < n -> 0 <= c < n ->
      a0[p[r]][c] = fadd (dot a[r] (ucol a c n) 0 (min i r)) (if c >= min i r then a[r][c] else fzero)
  predicate is_lu (a : seq (seq ff)) (p : seq int) (a0 : seq (seq ff)) (n : int) =
    forall r c. 0 <= r < n -> 0 <= c < n -> a0[p[r]][c] = fadd (dot a[r] (ucol a c n) 0 r) (if c >= r then a[r][c] else fzero)

  (* a permutation of 0..n-1 takes every value *)
  let rec ghost reaches (p : seq int) (n v : int) (used : seq int) : int
    requires { perm p n } requires { 0 <= v < n } ensures { 0 <= result < n /\ p[result] = v }
    requires { length used = 0 } variant { 0 }
  = let rec pigeon (f : seq int) (m : int) : unit
      requires { 0 <= m } requires { length f = m + 1 } requires { forall r. 0 <= r <= m -> 0 <= f[r] < m } requires { forall r s. 0 <= r < s <= m -> f[r] <> f[s] }
      ensures { false } variant { m }
    = (* replace the value m-1 by the last one *)
      let g = create m (fun r -> if f[r] = m - 1 then f[m] else f[r]) in
      if m > 0 then pigeon g (m - 1) in
    let rec find (k : int) : int requires { 0 <= k <= n } requires { forall r. 0 <= r < k -> p[r] <> v } ensures { 0 <= result < n /\ p[result] = v } variant { n - k }
    = if k = n then begin
        let f = create (n + 1) (fun r -> if r = n then v else p[r]) in
        pigeon f n; 0
      end else if p[k] = v then k else find (k + 1) in
    find 0

  function prow (a : seq (seq ff)) (r t n : int) : seq ff = create n (fun c -> dot a[r] (ucol a c n) 0 t)

  (* L U x = L (U x) *)
  let rec ghost lu_apply (a : seq (seq ff)) (x y : seq ff) (r t n : int)
    requires { 0 <= t <= r < n } requires { forall k. 0 <= k < n -> y[k] = dot a[k] x k n }
    ensures { dot (prow a r t n) x 0 n = dot a[r] y 0 t } variant { t }
  = if t = 0 then assert { dot (prow a r 0 n) x 0 n = fzero } else begin
      let k = t - 1 in
      lu_apply a x y r k n;
      let rec cols (c : int) : unit requires { 0 <= c <= n } ensures { forall d. c <= d < n -> (prow a r t n)[d] = fadd (prow a r k n)[d] (fmul a[r][k] (urow a k n)[d]) } variant { n - c }
      = if c < n then begin dot_last a[r] (ucol a c n) 0 k; cols (c + 1) end in
      cols 0;
      dot_axpy (prow a r k n) (urow a k n) (prow a r t n) x a[r][k] 0 n;
      dot_skip (urow a k n) x 0 k n;
      assert { dot (urow a k n) x k n = dot a[k] x k n };
      dot_last a[r] y 0 k
    end

  let ghost lu_row (a a0 : seq (seq ff)) (p : seq int) (x y : seq ff) (r n : int)
    requires { 0 <= r < n } requires { is_lu a p a0 n } requires { forall k. 0 <= k < n -> y[k] = dot a[k] x k n }
    ensures { dot a0[p[r]] x 0 n = fadd (dot a[r] y 0 r) y[r] }
  = lu_apply a x y r r n;
    assert { forall c. 0 <= c < n -> a0[p[r]][c] = fadd (prow a r r n)[c] (fmul fone (urow a r n)[c]) };
    dot_axpy (prow a r r n) (urow a r n) a0[p[r]] x fone 0 n;
    dot_skip (urow a r n) x 0 r n;
    assert { dot (urow a r n) x r n = dot a[r] x r n }

  (* the two triangular solves invert A *)
  predicate solves (a : seq (seq ff)) (x b : seq ff) (n : int) = forall r. 0 <= r < n -> dot a[r] x 0 n = b[r]
  let ghost lu_solves (a a0 : seq (seq ff)) (p : seq int) (x y b : seq ff) (n : int)
    requires { 0 <= n } requires { is_lu a p a0 n } requires { perm p n } requires { forall k. 0 <= k < n -> y[k] = dot a[k] x k n }
    requires { forall r. 0 <= r < n -> fadd (dot a[r] y 0 r) y[r] = b[p[r]] }
    ensures { solves a0 x b n }
  = let rec rows (v : int) : unit requires { 0 <= v <= n } ensures { forall r. v <= r < n -> dot a0[r] x 0 n = b[r] } variant { n - v }
    = if v < n then begin let r = reaches p n v empty in lu_row a a0 p x y r n; rows (v + 1) end in
    rows 0

  (* one row of one elimination step: row j minus l times row i *)
  let ghost lu_step_row (a b a0 : seq (seq ff)) (p : seq int) (i j n : int)
    requires { 0 <= i < j < n }
    requires { forall r c. 0 <= r < n -> 0 <= c < n -> r <> j -> b[r][c] = a[r][c] }
    requires { forall c. 0 <= c < i -> b[j][c] = a[j][c] }
    requires { b[j][i] = fdiv a[j][i] a[i][i] } requires { a[i][i] = fzero -> a[j][i] = fzero }
    requires { forall c. i < c < n -> b[j][c] = fsub a[j][c] (fmul b[j][i] a[i][c]) }
    requires { forall c. 0 <= c < n -> a0[p[j]][c] = fadd (dot a[j] (ucol a c n) 0 i) (if c >= i then a[j][c] else fzero) }
    ensures { forall c. 0 <= c < n -> a0[p[j]][c] = fadd (dot b[j] (ucol b c n) 0 (i + 1)) (if c >= i + 1 then b[j][c] else fzero) }
  = let rec cols (c : int) : unit requires { 0 <= c <= n }
      ensures { forall d. c <= d < n -> a0[p[j]][d] = fadd (dot b[j] (ucol b d n) 0 (i + 1)) (if d >= i + 1 then b[j][d] else fzero) } variant { n - c }
    = if c < n then begin
        assert { forall k. 0 <= k < i -> (ucol b c n)[k] = (ucol a c n)[k] };
        assert { dot b[j] (ucol b c n) 0 i = dot a[j] (ucol a c n) 0 i };
        dot_last b[j] (ucol b c n) 0 i;
        let s = dot a[j] (ucol a c n) 0 i in
        if c = i then begin
          assert { (ucol b c n)[i] = a[i][i] };
          if not feq a[i][i] fzero then law_lu_diag s a[j][i] a[i][i]
        end else if c > i then begin
          assert { (ucol b c n)[i] = a[i][c] };
          law_lu_step s a[j][c] b[j][i] a[i][c]
        end else assert { (ucol b c n)[i] = fzero };
        cols (c + 1)
      end in
    cols 0
end

(* Determinants: the four axioms are proved in lean/Det.lean for Matrix.det over an arbitrary field. *)
module Det
  use int.Int
  use int.EuclideanDivision
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use Gauss
  function det (a : seq (seq ff)) (n : int) : ff
  val ghost det_ext (a b : seq (seq ff)) (n : int) : unit requires { n >= 0 }
    requires { forall r c. 0 <= r < n -> 0 <= c < n -> a[r][c] = b[r][c] } ensures { det a n = det b n }
  val ghost det_swap (a b : seq (seq ff)) (i k n : int) : unit requires { 0 <= i < n } requires { 0 <= k < n } requires { i <> k }
    requires { forall c. 0 <= c < n -> b[i][c] = a[k][c] } requires { forall c. 0 <= c < n -> b[k][c] = a[i][c] }
    requires { forall r c. 0 <= r < n -> 0 <= c < n -> r <> i -> r <> k -> b[r][c] = a[r][c] } ensures { det b n = fneg (det a n) }
  val ghost det_axpy (a b : seq (seq ff)) (i k n : int) (l : ff) : unit requires { 0 <= i < n } requires { 0 <= k < n } requires { i <> k }
    requires { forall c. 0 <= c < n -> b[k][c] = fadd a[k][c] (fmul l a[i][c]) }
    requires { forall r c. 0 <= r < n -> 0 <= c < n -> r <> k -> b[r][c] = a[r][c] } ensures { det b n = det a n }
  let rec ghost function diag (a : seq (seq ff)) (n : int) : ff variant { n } = if n <= 0 then fone else fmul (diag a (n - 1)) a[n - 1][n - 1]
  val ghost det_upper (a : seq (seq ff)) (n : int) : unit requires { n >= 0 } requires { forall r c. 0 <= r < n -> 0 <= c < r -> a[r][c] = fzero }
    ensures { det a n = diag a n }

  let rec lemma diag_ext (a b : seq (seq ff)) (n : int)
    requires { forall r. 0 <= r < n -> a[r][r] = b[r][r] } ensures { diag a n = diag b n } variant { n }
  = if n > 0 then diag_ext a b (n - 1)

  function signed (s : int) (x : ff) : ff = if mod s 2 = 0 then x else fneg x
  (* the matrix an elimination is at: columns before i cleared below the diagonal, column i for the rows before j *)
  function trunc (a : seq (seq ff)) (i j n : int) : seq (seq ff) =
    create n (fun r -> create n (fun c -> if c < r && (c < i || (c = i && r < j)) then fzero else a[r][c]))

  let ghost trunc_start (a : seq (seq ff)) (n : int) requires { 0 <= n } ensures { det (trunc a 0 0 n) n = det a n }
  = assert { forall r c. 0 <= r < n -> 0 <= c < n -> (trunc a 0 0 n)[r][c] = a[r][c] }; det_ext (trunc a 0 0 n) a n
  let ghost trunc_swap (a b : seq (seq ff)) (i k n s : int)
    requires { 0 <= i < n /\ i < k < n }
    requires { forall c. 0 <= c < n -> b[i][c] = a[k][c] /\ b[k][c] = a[i][c] }
    requires { forall r c. 0 <= r < n -> 0 <= c < n -> r <> i -> r <> k -> b[r][c] = a[r][c] }
    ensures { signed s (det (trunc a i 0 n) n) = signed (s + 1) (det (trunc b i 0 n) n) }
  = let x = trunc a i 0 n in let y = trunc b i 0 n in
    assert { forall c. 0 <= c < n -> y[i][c] = x[k][c] };
    assert { forall c. 0 <= c < n -> y[k][c] = x[i][c] };
    assert { forall r c. 0 <= r < n -> 0 <= c < n -> r <> i -> r <> k -> y[r][c] = x[r][c] };
    det_swap x y i k n;
    assert { mod (s + 1) 2 = 1 - mod s 2 by s = 2 * div s 2 + mod s 2 /\ (s + 1) = 2 * div (s + 1) 2 + mod (s + 1) 2 }
  let ghost trunc_row (a b : seq (seq ff)) (i j n : int)
    requires { 0 <= i < j < n } requires { a[i][i] = fzero -> a[j][i] = fzero }
    requires { forall r c. 0 <= r < n -> 0 <= c < n -> r <> j -> b[r][c] = a[r][c] }
    requires { b[j][i] = fdiv a[j][i] a[i][i] } requires { forall c. 0 <= c < i -> b[j][c] = a[j][c] }
    requires { forall c. i < c < n -> b[j][c] = fsub a[j][c] (fmul b[j][i] a[i][c]) }
    ensures { det (trunc a i j n) n = det (trunc b i (j + 1) n) n }
  = let x = trunc a i j n in let y = trunc b i (j + 1) n in
    let l = fneg b[j][i] in
    assert { forall r c. 0 <= r < n -> 0 <= c < n -> r <> j -> y[r][c] = x[r][c] };
    let rec cols (c : int) : unit requires { 0 <= c <= n } ensures { forall d. c <= d < n -> y[j][d] = fadd x[j][d] (fmul l x[i][d]) } variant { n - c }
    = if c < n then begin
        if c < i then assert { y[j][c] = fzero /\ x[j][c] = fzero /\ x[i][c] = fzero }
        else if c = i then begin assert { y[j][c] = fzero /\ x[j][c] = a[j][i] /\ x[i][c] = a[i][i] };
          if not feq a[i][i] fzero then law_elim2 a[j][i] a[i][i] end
        else begin assert { y[j][c] = b[j][c] /\ x[j][c] = a[j][c] /\ x[i][c] = a[i][c] }; law_sub_axpy a[j][c] b[j][i] a[i][c] end;
        cols (c + 1)
      end in
    cols 0;
    det_axpy x y i j n l
  let ghost trunc_next (a : seq (seq ff)) (i n : int) requires { 0 <= i < n }
    ensures { det (trunc a i n n) n = det (trunc a (i + 1) 0 n) n } ensures { det (trunc a i 0 n) n = det (trunc a i (i + 1) n) n }
  = assert { forall r c. 0 <= r < n -> 0 <= c < n -> (trunc a i n n)[r][c] = (trunc a (i + 1) 0 n)[r][c] }; det_ext (trunc a i n n) (trunc a (i + 1) 0 n) n;
    assert { forall r c. 0 <= r < n -> 0 <= c < n -> (trunc a i 0 n)[r][c] = (trunc a i (i + 1) n)[r][c] }; det_ext (trunc a i 0 n) (trunc a i (i + 1) n) n
  let ghost trunc_end (a : seq (seq ff)) (n : int) requires { 0 <= n } ensures { det (trunc a n 0 n) n = diag a n }
  = assert { forall r c. 0 <= r < n -> 0 <= c < r -> (trunc a n 0 n)[r][c] = fzero };
    det_upper (trunc a n 0 n) n; diag_ext (trunc a n 0 n) a n
end
