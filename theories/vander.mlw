(* The transposed Vandermonde solver: master polynomial, synthetic division, divided differences. *)
module Vander
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws

  (* value at z of the monic polynomial of degree m - j with coefficients c[j], .., c[m-1], 1 *)
  let rec ghost function hor (c : seq ff) (m j : int) (z : ff) : ff variant { m - j }
  = if j >= m then fone else fadd c[j] (fmul z (hor c m (j + 1) z))
  (* its divided difference [w,v], one level down *)
  let rec ghost function dd (c : seq ff) (m j : int) (w v : ff) : ff variant { m + 1 - j }
  = if j > m then fzero else fadd (hor c m j v) (fmul w (dd c m (j + 1) w v))
  let rec ghost function prod (v : seq ff) (i : int) (z : ff) : ff variant { i }
  = if i <= 0 then fone else fmul (fsub z v[i - 1]) (prod v (i - 1) z)
  let rec ghost function dprod (v : seq ff) (i : int) (w u : ff) : ff variant { i }
  = if i <= 0 then fzero else fadd (prod v (i - 1) u) (fmul (fsub w v[i - 1]) (dprod v (i - 1) w u))

  let rec lemma hor_ext (c d : seq ff) (m j : int) (z : ff) requires { forall k. j <= k < m -> c[k] = d[k] } ensures { hor c m j z = hor d m j z } variant { m - j }
  = if j < m then hor_ext c d m (j + 1) z
  let rec lemma dd_ext (c d : seq ff) (m j : int) (w v : ff) requires { forall k. j <= k < m -> c[k] = d[k] } ensures { dd c m j w v = dd d m j w v } variant { m + 1 - j }
  = if j <= m then dd_ext c d m (j + 1) w v

  (* one step of the recursion building the master polynomial: d = (Z - a) * c *)
  predicate mstep (c d : seq ff) (m lo : int) (a : ff) =
    (forall k. lo <= k < m - 1 -> d[k] = fsub c[k] (fmul a c[k + 1])) /\ d[m - 1] = fsub c[m - 1] a
  let rec ghost hor_step (c d : seq ff) (m lo : int) (a z : ff)
    requires { lo < m } requires { mstep c d m lo a }
    ensures { hor d m lo z = fadd (fmul (fsub z a) (hor c m (lo + 1) z)) c[lo] } variant { m - lo }
  = if lo = m - 1 then begin law_mst_base c[lo] a z; assert { hor c m m z = fone /\ hor d m m z = fone }; assert { hor d m lo z = fadd (fsub c[lo] a) (fmul z fone) } end
    else begin hor_step c d m (lo + 1) a z; law_mst_step c[lo] c[lo + 1] a z (hor c m (lo + 2) z);
      assert { hor c m (lo + 1) z = fadd c[lo + 1] (fmul z (hor c m (lo + 2) z)) } end
  let rec ghost dd_mstep (c d : seq ff) (m lo : int) (a w v : ff)
    requires { lo <= m } requires { lo < m -> mstep c d m lo a }
    ensures { dd d m lo w v = fadd (hor c m lo v) (fmul (fsub w a) (dd c m (lo + 1) w v)) } variant { m - lo }
  = if lo = m then begin assert { dd d m m w v = fadd fone (fmul w (dd d m (m + 1) w v)) }; assert { dd d m (m + 1) w v = fzero /\ dd c m (m + 1) w v = fzero } end
    else begin
      dd_mstep c d m (lo + 1) a w v; hor_step c d m lo a v;
      law_dd_step (hor c m (lo + 1) v) a c[lo] w v (dd c m (lo + 2) w v);
      assert { hor c m lo v = fadd c[lo] (fmul v (hor c m (lo + 1) v)) };
      assert { dd c m (lo + 1) w v = fadd (hor c m (lo + 1) v) (fmul w (dd c m (lo + 2) w v)) };
      assert { dd d m lo w v = fadd (hor d m lo v) (fmul w (dd d m (lo + 1) w v)) }
    end

  (* synthetic division: P(w) = (w - v) * P[w,v] + P(v) *)
  let rec ghost synth (c : seq ff) (m j : int) (w v : ff) requires { j <= m }
    ensures { hor c m j w = fadd (fmul (fsub w v) (dd c m (j + 1) w v)) (hor c m j v) } variant { m - j }
  = if j = m then assert { dd c m (m + 1) w v = fzero }
    else begin synth c m (j + 1) w v; law_synth c[j] v w (dd c m (j + 2) w v) (hor c m (j + 1) v);
      assert { dd c m (j + 1) w v = fadd (hor c m (j + 1) v) (fmul w (dd c m (j + 2) w v)) } end

  predicate master (c v : seq ff) (m i : int) =
    (forall z. hor c m (m - i) z = prod v i z) /\ (forall w u. dd c m (m - i + 1) w u = dprod v i w u)
  let ghost master_step (c d v : seq ff) (m i : int)
    requires { 0 <= i < m } requires { master c v m i } requires { mstep c d m (m - i - 1) v[i] } requires { c[m - i - 1] = fzero }
    ensures { master d v m (i + 1) }
  = let lemma h (z : ff) ensures { hor d m (m - (i + 1)) z = prod v (i + 1) z } = hor_step c d m (m - i - 1) v[i] z in
    let lemma g (w u : ff) ensures { dd d m (m - (i + 1) + 1) w u = dprod v (i + 1) w u } = dd_mstep c d m (m - i) v[i] w u in
    ()

  let ghost make0 (m : int) : seq ff requires { m >= 0 } ensures { length result = m } ensures { forall k. 0 <= k < m -> result[k] = fzero }
  = create m (fun _ -> fzero)
  let rec ghost hor_top (c : seq ff) (m : int) (z w : ff) ensures { hor c m m z = fone /\ dd c m (m + 1) z w = fzero } variant { 0 } = ()
  let ghost master0 (v : seq ff) (m : int) requires { 0 <= m } ensures { forall c. master c v m 0 } = ()

  predicate distinct (v : seq ff) (m : int) = (forall i. 0 <= i < m -> v[i] <> fzero) /\ forall i j. 0 <= i < j < m -> v[i] <> v[j]
  let rec lemma prod_root (v : seq ff) (i l : int) requires { 0 <= l < i } ensures { prod v i v[l] = fzero } variant { i }
  = if l < i - 1 then prod_root v (i - 1) l
  let rec lemma prod_nonroot (v : seq ff) (i k m : int) requires { 0 <= i <= k < m } requires { distinct v m } ensures { prod v i v[k] <> fzero } variant { i }
  = if i > 0 then begin prod_nonroot v (i - 1) k m; law_sub_ne v[k] v[i - 1] end
  let rec lemma dprod_ne (v : seq ff) (i k m : int) requires { 0 <= k < i <= m } requires { distinct v m } ensures { dprod v i v[k] v[k] <> fzero } variant { i }
  = if k = i - 1 then begin assert { fsub v[k] v[i - 1] = fzero }; prod_nonroot v (i - 1) k m end
    else begin dprod_ne v (i - 1) k m; prod_root v (i - 1) k; law_sub_ne v[k] v[i - 1] end

  (* the divided difference of the master polynomial at two nodes *)
  let ghost dd_nodes (c v : seq ff) (m l i : int)
    requires { 0 <= l < m /\ 0 <= i < m } requires { master c v m m } requires { distinct v m }
    ensures { l <> i -> dd c m 1 v[l] v[i] = fzero } ensures { l = i -> dd c m 1 v[l] v[i] <> fzero }
  = if l <> i then begin
      synth c m 0 v[l] v[i]; prod_root v m l; prod_root v m i; law_sub_ne v[l] v[i];
      assert { hor c m 0 v[l] = fzero /\ hor c m 0 v[i] = fzero }
    end else dprod_ne v m i m

  (* right-hand sides: f_k = sum over l < q of x_l v_l^(k+1) *)
  let rec ghost function rhs (x v : seq ff) (k q : int) : ff variant { q }
  = if q <= 0 then fzero else fadd (rhs x v k (q - 1)) (fmul x[q - 1] (fpow v[q - 1] (k + 1)))
  (* what the synthetic division accumulates: sum over l = j .. m of f_(l-1) H_l(v) *)
  let rec ghost function acc (f c : seq ff) (m j : int) (v : ff) : ff variant { m + 1 - j }
  = if j > m then fzero else fadd (acc f c m (j + 1) v) (fmul f[j - 1] (hor c m j v))
  let rec ghost function accq (x vs c : seq ff) (m j q : int) (v : ff) : ff variant { m + 1 - j }
  = if j > m then fzero else fadd (accq x vs c m (j + 1) q v) (fmul (rhs x vs (j - 1) q) (hor c m j v))
  let rec ghost function accw (w : ff) (c : seq ff) (m j : int) (v : ff) : ff variant { m + 1 - j }
  = if j > m then fzero else fadd (accw w c m (j + 1) v) (fmul (fpow w j) (hor c m j v))
  let rec ghost function nodes (x vs c : seq ff) (m q : int) (v : ff) : ff variant { q }
  = if q <= 0 then fzero else fadd (nodes x vs c m (q - 1) v) (fmul x[q - 1] (fmul vs[q - 1] (dd c m 1 vs[q - 1] v)))

  let rec ghost acc_rhs (f x vs c : seq ff) (m j : int) (v : ff)
    requires { 1 <= j } requires { forall k. 0 <= k < m -> f[k] = rhs x vs k m } ensures { acc f c m j v = accq x vs c m j m v } variant { m + 1 - j }
  = if j <= m then acc_rhs f x vs c m (j + 1) v
  let rec ghost accq0 (x vs c : seq ff) (m j : int) (v : ff) ensures { accq x vs c m j 0 v = fzero } variant { m + 1 - j }
  = if j <= m then accq0 x vs c m (j + 1) v
  let rec ghost accq_step (x vs c : seq ff) (m j q : int) (v : ff)
    requires { 0 <= q } ensures { accq x vs c m j (q + 1) v = fadd (accq x vs c m j q v) (fmul x[q] (accw vs[q] c m j v)) } variant { m + 1 - j }
  = if j <= m then begin
      accq_step x vs c m (j + 1) q v;
      law_acc_step (accq x vs c m (j + 1) q v) x[q] (accw vs[q] c m (j + 1) v) (rhs x vs (j - 1) q) (fpow vs[q] j) (hor c m j v)
    end
  let rec ghost accw_dd (w : ff) (c : seq ff) (m j : int) (v : ff)
    requires { 0 <= j } ensures { accw w c m j v = fmul (fpow w j) (dd c m j w v) } variant { m + 1 - j }
  = if j <= m then begin accw_dd w c m (j + 1) v; law_pow_succ w j; law_pow_dd (fpow w j) w (dd c m (j + 1) w v) (hor c m j v) end
  let rec ghost acc_nodes (x vs c : seq ff) (m q : int) (v : ff)
    requires { 0 <= q } ensures { accq x vs c m 1 q v = nodes x vs c m q v } variant { q }
  = if q = 0 then accq0 x vs c m 1 v else begin
      acc_nodes x vs c m (q - 1) v; accq_step x vs c m 1 (q - 1) v; accw_dd vs[q - 1] c m 1 v; law_pow_succ vs[q - 1] 0;
      assert { fpow vs[q - 1] 1 = fmul vs[q - 1] fone }
    end
  let rec ghost nodes_one (x vs c : seq ff) (m q i : int)
    requires { 0 <= q <= m } requires { 0 <= i < m } requires { master c vs m m } requires { distinct vs m }
    ensures { nodes x vs c m q vs[i] = if q <= i then fzero else fmul x[i] (fmul vs[i] (dd c m 1 vs[i] vs[i])) } variant { q }
  = if q > 0 then begin nodes_one x vs c m (q - 1) i; dd_nodes c vs m (q - 1) i end

  predicate rhs_of (f x vs : seq ff) (m : int) = forall k. 0 <= k < m -> f[k] = rhs x vs k m
  (* the quotient the solver returns *)
  let ghost vander_sol (f x vs c : seq ff) (m i : int)
    requires { 0 <= i < m } requires { master c vs m m } requires { distinct vs m } requires { rhs_of f x vs m }
    ensures { fdiv (fdiv (acc f c m 1 vs[i]) (dd c m 1 vs[i] vs[i])) vs[i] = x[i] } ensures { dd c m 1 vs[i] vs[i] <> fzero }
  = acc_rhs f x vs c m 1 vs[i]; acc_nodes x vs c m m vs[i]; nodes_one x vs c m m i; dd_nodes c vs m i i;
    law_two_div x[i] vs[i] (dd c m 1 vs[i] vs[i])
end
