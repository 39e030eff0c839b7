(* Multivariate polynomials over the field: maps from exponent vectors to coefficients, and their values. *)
module PolyFF
  use int.Int
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use cxxmap.FMap
  use set.Fset as S
  use fmap.Fmap as M

  type mono = seq int
  (* x[0]^k[o] * ... * x[n-1]^k[n-1+o] *)
  let rec ghost function mval (x : seq ff) (k : mono) (o n : int) : ff variant { n }
  = if n <= 0 then fone else fmul (mval x k o (n - 1)) (fpow x[n - 1] k[n - 1 + o])
  let rec ghost mval_ext (x y : seq ff) (k : mono) (o n : int) requires { forall j. 0 <= j < n -> x[j] = y[j] } ensures { mval x k o n = mval y k o n } variant { n }
  = if n > 0 then mval_ext x y k o (n - 1)

  function term (m : fmap mono ff) (k : mono) (x : seq ff) (o n : int) : ff = fmul (fval m k) (mval x k o n)

  (* value of the terms s[0], .., s[j-1] *)
  let rec ghost function esum (s : seq mono) (j : int) (m : fmap mono ff) (x : seq ff) (o n : int) : ff variant { j }
  = if j <= 0 then fzero else fadd (esum s (j - 1) m x o n) (term m s[j - 1] x o n)

  let rec ghost function msum (m : fmap mono ff) (x : seq ff) (o n : int) : ff variant { M.size m }
  = if M.size m <= 0 then fzero else
    let k = S.pick (M.domain m) in fadd (term m k x o n) (msum (M.remove k m) x o n)

  let rec ghost msum_ext (m p : fmap mono ff) (x : seq ff) (o n : int)
    requires { forall k. fmem k m <-> fmem k p } requires { forall k. fmem k m -> fval m k = fval p k } ensures { msum m x o n = msum p x o n }
    variant { 0 }
  = ext m p

  let rec ghost msum_take (k : mono) (m : fmap mono ff) (x : seq ff) (o n : int)
    requires { fmem k m } ensures { msum m x o n = fadd (term m k x o n) (msum (fremove_ k m) x o n) } variant { M.size m }
  = let q = S.pick (M.domain m) in
    assert { M.size m > 0 };
    assert { fmem q m };
    if pure { q <> k } then begin
      let mq = fremove_ q m in let mk = fremove_ k m in
      assert { fmem k mq /\ fmem q mk };
      msum_take k mq x o n;
      msum_take q mk x o n;
      ext (fremove_ k mq) (fremove_ q mk);
      law_swap_add (term m q x o n) (term m k x o n) (msum (fremove_ k mq) x o n)
    end

  let ghost msum_empty (m : fmap mono ff) (x : seq ff) (o n : int)
    requires { forall k. not fmem k m } ensures { msum m x o n = fzero }
  = assert { S.is_empty (M.domain m) by forall k. not S.mem k (M.domain m) by not fmem k m }

  lemma msum_none : forall m x o n. fisempty m -> msum m x o n = fzero
  let lemma msum_one (k : mono) (m : fmap mono ff) (x : seq ff) (o n : int) requires { M.size m = 1 } requires { fmem k m } ensures { msum m x o n = term m k x o n }
  = msum_take k m x o n; assert { M.size (fremove_ k m) = 0 }; assert { msum (fremove_ k m) x o n = fzero }
  let lemma msum_fempty (x : seq ff) (o n : int) ensures { msum (fempty : fmap mono ff) x o n = fzero } = msum_empty (pure { fempty : fmap mono ff }) x o n
  let ghost msum_new (k : mono) (v : ff) (m : fmap mono ff) (x : seq ff) (o n : int)
    requires { not fmem k m } ensures { msum (fadd_ k v m) x o n = fadd (msum m x o n) (fmul v (mval x k o n)) }
  = msum_take k (fadd_ k v m) x o n; ext (fremove_ k (fadd_ k v m)) m; law_comm_add (fmul v (mval x k o n)) (msum m x o n)

  (* a changed coefficient changes the value by the difference *)
  let ghost msum_set (k : mono) (v d : ff) (m : fmap mono ff) (x : seq ff) (o n : int)
    requires { fmem k m } requires { v = fadd (fval m k) d }
    ensures { msum (fadd_ k v m) x o n = fadd (msum m x o n) (fmul d (mval x k o n)) }
  = msum_take k (fadd_ k v m) x o n; msum_take k m x o n; ext (fremove_ k (fadd_ k v m)) (fremove_ k m);
    law_set_term (fval m k) d (mval x k o n) (msum (fremove_ k m) x o n)

  let ghost msum_drop (k : mono) (m : fmap mono ff) (x : seq ff) (o n : int)
    requires { fmem k m } requires { fval m k = fzero } ensures { msum (fremove_ k m) x o n = msum m x o n }
  = msum_take k m x o n

  (* any order of summation gives the value *)
  let rec ghost esum_del (s : seq mono) (j : int) (m : fmap mono ff) (k : mono) (x : seq ff) (o n : int)
    requires { forall i. 0 <= i < j -> s[i] <> k } ensures { esum s j (fremove_ k m) x o n = esum s j m x o n }
    requires { forall i. 0 <= i < j -> fmem s[i] m } variant { j }
  = if j > 0 then esum_del s (j - 1) m k x o n
  let rec ghost enum_sum (s : seq mono) (j : int) (m : fmap mono ff) (x : seq ff) (o n : int)
    requires { 0 <= j <= length s } requires { forall i. 0 <= i < j -> fmem s[i] m } requires { forall i l. 0 <= i < l < j -> s[i] <> s[l] }
    requires { forall k. fmem k m -> exists i. 0 <= i < j /\ s[i] = k } ensures { esum s j m x o n = msum m x o n } variant { j }
  = if j = 0 then msum_empty m x o n else begin
      let k = s[j - 1] in let p = fremove_ k m in
      esum_del s (j - 1) m k x o n;
      assert { forall q. fmem q p -> exists i. 0 <= i < j - 1 /\ s[i] = q };
      enum_sum s (j - 1) p x o n;
      msum_take k m x o n;
      law_comm_add (term m k x o n) (msum p x o n)
    end
  let ghost enumerated (s : seq mono) (m : fmap mono ff)
    requires { enumerates s m } ensures { forall x o n. esum s (length s) m x o n = msum m x o n }
  = let lemma h (x : seq ff) (o n : int) ensures { esum s (length s) m x o n = msum m x o n }
    = assert { forall k. fmem k m -> exists i. 0 <= i < length s /\ s[i] = k by 0 <= pos s k < length s /\ s[pos s k] = k }; enum_sum s (length s) m x o n in ()
  let rec lemma esum_ext (s : seq mono) (j : int) (m p : fmap mono ff) (x : seq ff) (o n : int)
    requires { forall i. 0 <= i < j -> fval m s[i] = fval p s[i] } ensures { esum s j m x o n = esum s j p x o n } variant { j }
  = if j > 0 then esum_ext s (j - 1) m p x o n

  (* scaling all coefficients *)
  let rec ghost esum_scale (s : seq mono) (j : int) (m p : fmap mono ff) (c : ff) (x : seq ff) (o n : int)
    requires { forall i. 0 <= i < j -> fval p s[i] = fmul (fval m s[i]) c } ensures { esum s j p x o n = fmul (esum s j m x o n) c } variant { j }
  = if j > 0 then begin esum_scale s (j - 1) m p c x o n; law_scale_term (esum s (j - 1) m x o n) (fval m s[j - 1]) (mval x s[j - 1] o n) c end

  (* the same for every point *)
  let ghost set_all (k : mono) (v d : ff) (m : fmap mono ff)
    requires { fmem k m } requires { v = fadd (fval m k) d }
    ensures { forall x o n. msum (fadd_ k v m) x o n = fadd (msum m x o n) (fmul d (mval x k o n)) }
  = let lemma h (x : seq ff) (o n : int) ensures { msum (fadd_ k v m) x o n = fadd (msum m x o n) (fmul d (mval x k o n)) } = msum_set k v d m x o n in ()
  let ghost new_all (k : mono) (v : ff) (m : fmap mono ff)
    requires { not fmem k m } ensures { forall x o n. msum (fadd_ k v m) x o n = fadd (msum m x o n) (fmul v (mval x k o n)) }
  = let lemma h (x : seq ff) (o n : int) ensures { msum (fadd_ k v m) x o n = fadd (msum m x o n) (fmul v (mval x k o n)) } = msum_new k v m x o n in ()
  let ghost drop_all (k : mono) (m : fmap mono ff)
    requires { fmem k m } requires { fval m k = fzero } ensures { forall x o n. msum (fremove_ k m) x o n = msum m x o n }
  = let lemma h (x : seq ff) (o n : int) ensures { msum (fremove_ k m) x o n = msum m x o n } = msum_drop k m x o n in ()
  let ghost scale_all (m p : fmap mono ff) (c : ff)
    requires { forall k. fmem k m <-> fmem k p } requires { forall k. fmem k m -> fval p k = fmul (fval m k) c }
    ensures { forall x o n. msum p x o n = fmul (msum m x o n) c }
  = let s = any_enum m in
    assert { enumerates s p };
    enumerated s m; enumerated s p;
    let lemma h (x : seq ff) (o n : int) ensures { esum s (length s) p x o n = fmul (esum s (length s) m x o n) c } = esum_scale s (length s) m p c x o n in ()

  (* one coefficient changed by d; a coefficient that becomes zero may be dropped *)
  predicate accum (k : mono) (d : ff) (m r : fmap mono ff) =
    (forall q. q <> k -> (fmem q r <-> fmem q m)) /\ (forall q. q <> k -> fmem q m -> fval r q = fval m q) /\
    (if fmem k r then fval r k = (if fmem k m then fadd (fval m k) d else d) else (if fmem k m then fadd (fval m k) d = fzero else d = fzero))
  lemma accum_new : forall k d m. not fmem k m -> accum k d m (fadd_ k d m)
  lemma accum_set : forall k d v m. fmem k m -> v = fadd (fval m k) d -> accum k d m (fadd_ k v m)
  lemma accum_drop : forall k d m. fmem k m -> fadd (fval m k) d = fzero -> accum k d m (fremove_ k m)
  lemma accum_set_drop : forall k d v m. fmem k m -> fadd (fval m k) d = fzero -> accum k d m (fremove_ k (fadd_ k v m))
  lemma accum_zero : forall k d m. not fmem k m -> d = fzero -> accum k d m m
  let ghost acc_all (k : mono) (d : ff) (m r : fmap mono ff)
    requires { accum k d m r } ensures { forall x o n. msum r x o n = fadd (msum m x o n) (fmul d (mval x k o n)) }
  = if fmem k m then begin
      let v = fadd (fval m k) d in let m1 = fadd_ k v m in
      set_all k v d m;
      if fmem k r then ext m1 r else begin drop_all k m1; ext (fremove_ k m1) r end
    end else begin
      new_all k d m;
      if fmem k r then ext (fadd_ k d m) r else ext m r
    end
  let ghost acc_step (s : seq mono) (j : int) (base b m r : fmap mono ff)
    requires { 0 <= j < length s } requires { forall x o n. msum m x o n = fadd (msum base x o n) (esum s j b x o n) }
    requires { accum s[j] (fval b s[j]) m r } ensures { forall x o n. msum r x o n = fadd (msum base x o n) (esum s (j + 1) b x o n) }
  = acc_all s[j] (fval b s[j]) m r;
    let lemma h (x : seq ff) (o n : int) ensures { msum r x o n = fadd (msum base x o n) (esum s (j + 1) b x o n) }
    = law_assoc_add (msum base x o n) (esum s j b x o n) (term b s[j] x o n) in ()
  predicate accum_sub (k : mono) (d : ff) (m r : fmap mono ff) =
    (forall q. q <> k -> (fmem q r <-> fmem q m)) /\ (forall q. q <> k -> fmem q m -> fval r q = fval m q) /\
    (if fmem k r then fval r k = (if fmem k m then fsub (fval m k) d else fneg d) else (if fmem k m then fsub (fval m k) d = fzero else d = fzero))
  lemma accum_sub_new : forall k d v m. not fmem k m -> v = fneg d -> accum_sub k d m (fadd_ k v m)
  lemma accum_sub_set : forall k d v m. fmem k m -> v = fsub (fval m k) d -> accum_sub k d m (fadd_ k v m)
  lemma accum_sub_drop : forall k d m. fmem k m -> fsub (fval m k) d = fzero -> accum_sub k d m (fremove_ k m)
  lemma accum_sub_set_drop : forall k d v m. fmem k m -> fsub (fval m k) d = fzero -> accum_sub k d m (fremove_ k (fadd_ k v m))
  lemma accum_sub_zero : forall k d m. not fmem k m -> d = fzero -> accum_sub k d m m
  let ghost sub_step_ (s : seq mono) (j : int) (base b m r : fmap mono ff)
    requires { 0 <= j < length s } requires { forall x o n. msum m x o n = fsub (msum base x o n) (esum s j b x o n) }
    requires { accum_sub s[j] (fval b s[j]) m r } ensures { forall x o n. msum r x o n = fsub (msum base x o n) (esum s (j + 1) b x o n) }
  = let d = fval b s[j] in
    law_sub_neg (fval m s[j]) d;
    assert { accum s[j] (fneg d) m r };
    acc_all s[j] (fneg d) m r;
    let lemma h (x : seq ff) (o n : int) ensures { msum r x o n = fsub (msum base x o n) (esum s (j + 1) b x o n) }
    = law_acc_sub (msum base x o n) (esum s j b x o n) d (mval x s[j] o n) in ()

  let ghost comm_msum (a b : fmap mono ff) ensures { forall x o n. fadd (msum a x o n) (msum b x o n) = fadd (msum b x o n) (msum a x o n) }
  = let lemma h (x : seq ff) (o n : int) ensures { fadd (msum a x o n) (msum b x o n) = fadd (msum b x o n) (msum a x o n) } = law_comm_add (msum a x o n) (msum b x o n) in ()

  (* multiplication with one variable *)
  predicate inc_of (q k : mono) (z : int) = length q = length k /\ forall j. 0 <= j < length q -> q[j] = if j = z then k[j] + 1 else k[j]
  let rec ghost mval_kext (x : seq ff) (q k : mono) (o n : int) requires { forall j. o <= j < n + o -> q[j] = k[j] } ensures { mval x q o n = mval x k o n } variant { n }
  = if n > 0 then mval_kext x q k o (n - 1)
  let rec ghost mval_up (x : seq ff) (q k : mono) (z o n : int)
    requires { inc_of q k z } requires { 0 <= o <= z < n + o <= length k } requires { k[z] >= 0 }
    ensures { mval x q o n = fmul x[z - o] (mval x k o n) } variant { n }
  = let m = mval x k o (n - 1) in
    if z = n - 1 + o then begin mval_kext x q k o (n - 1); law_pow_succ x[z - o] k[z]; law_pow_up m x[z - o] (fpow x[z - o] k[z]) end
    else begin mval_up x q k z o (n - 1); law_mul_right m (fpow x[n - 1] k[n - 1 + o]) x[z - o] end
  function incv (k : mono) (z : int) : mono = k[z <- k[z] + 1]
  lemma incv_of : forall k z. 0 <= z < length k -> inc_of (incv k z) k z
  let lemma incv_inj (k l : mono) (z : int) requires { 0 <= z < length k } requires { 0 <= z < length l } requires { incv k z = incv l z } ensures { k = l }
  = assert { length k = length (incv k z) = length l }; assert { forall j. 0 <= j < length k -> k[j] = l[j] by (incv k z)[j] = (incv l z)[j] }; assert { k == l }
  predicate upto (m : fmap mono ff) (l : int) = forall k. fmem k m -> l <= length k
  let ghost mul_step (s : seq mono) (j : int) (t m r : fmap mono ff) (z : int)
    requires { 0 <= j < length s } requires { fmem s[j] t } requires { 0 <= z < length s[j] } requires { s[j][z] >= 0 }
    requires { forall x o n. 0 <= o <= z < n + o -> upto t (n + o) -> msum m x o n = fmul x[z - o] (esum s j t x o n) }
    requires { not fmem (incv s[j] z) m } requires { r = fadd_ (incv s[j] z) (fval t s[j]) m }
    ensures { forall x o n. 0 <= o <= z < n + o -> upto t (n + o) -> msum r x o n = fmul x[z - o] (esum s (j + 1) t x o n) }
  = let k = s[j] in let v = fval t k in let q = pure { incv k z } in
    new_all q v m;
    let lemma h (x : seq ff) (o n : int) requires { 0 <= o <= z < n + o } requires { upto t (n + o) } ensures { msum r x o n = fmul x[z - o] (esum s (j + 1) t x o n) }
    = mval_up x q k z o n;
      law_scale_l v (mval x k o n) x[z - o];
      law_distr x[z - o] (esum s j t x o n) (term t k x o n) in ()

  (* products *)
  function madd (k l : mono) : mono = create (length k) (fun i -> k[i] + l[i])
  let rec ghost mval_add (x : seq ff) (k l : mono) (o n : int)
    requires { 0 <= o } requires { n + o <= length k } requires { n + o <= length l }
    requires { forall i. 0 <= i < length k -> k[i] >= 0 } requires { forall i. 0 <= i < length l -> l[i] >= 0 }
    ensures { mval x (madd k l) o n = fmul (mval x k o n) (mval x l o n) } variant { n }
  = if n > 0 then begin
      mval_add x k l o (n - 1);
      let i = n - 1 + o in
      law_pow_add x[n - 1] k[i] l[i];
      law_mul4 (mval x k o (n - 1)) (mval x l o (n - 1)) (fpow x[n - 1] k[i]) (fpow x[n - 1] l[i])
    end
  predicate fits (a b : fmap mono ff) (x : seq ff) (o n : int) = 0 <= o /\ upto a (n + o) /\ upto b (n + o)
  predicate nat_ok (a : fmap mono ff) = forall k. fmem k a -> forall i. 0 <= i < length k -> k[i] >= 0
  predicate in_prod (s : seq mono) (i : int) (t : seq mono) (j : int) (a b r : fmap mono ff) =
    forall x o n. fits a b x o n -> msum r x o n = fadd (fmul (esum s i a x o n) (msum b x o n)) (fmul (term a s[i] x o n) (esum t j b x o n))
  predicate out_prod (s : seq mono) (i : int) (a b r : fmap mono ff) =
    forall x o n. fits a b x o n -> msum r x o n = fmul (esum s i a x o n) (msum b x o n)
  let ghost prod_step (s : seq mono) (i : int) (t : seq mono) (j : int) (a b m r : fmap mono ff)
    requires { nat_ok a /\ nat_ok b } requires { 0 <= i < length s /\ fmem s[i] a } requires { 0 <= j < length t /\ fmem t[j] b }
    requires { in_prod s i t j a b m } requires { accum (madd s[i] t[j]) (fmul (fval a s[i]) (fval b t[j])) m r } ensures { in_prod s i t (j + 1) a b r }
  = let k = s[i] in let l = t[j] in
    acc_all (pure { madd k l }) (fmul (fval a k) (fval b l)) m r;
    let lemma h (x : seq ff) (o n : int) requires { fits a b x o n }
      ensures { msum r x o n = fadd (fmul (esum s i a x o n) (msum b x o n)) (fmul (term a k x o n) (esum t (j + 1) b x o n)) }
    = mval_add x k l o n;
      law_mul_terms (esum s i a x o n) (esum t j b x o n) (fval a k) (fval b l) (mval x k o n) (mval x l o n) (msum b x o n) in ()
  let ghost prod_begin (s : seq mono) (i : int) (t : seq mono) (a b r : fmap mono ff)
    requires { out_prod s i a b r } ensures { in_prod s i t 0 a b r }
  = ()
  let ghost prod_end (s : seq mono) (i : int) (t : seq mono) (a b r : fmap mono ff)
    requires { 0 <= i < length s } requires { enumerates t b } requires { in_prod s i t (length t) a b r } ensures { out_prod s (i + 1) a b r }
  = enumerated t b;
    let lemma h (x : seq ff) (o n : int) requires { fits a b x o n } ensures { msum r x o n = fmul (esum s (i + 1) a x o n) (msum b x o n) }
    = law_distr_r (esum s i a x o n) (term a s[i] x o n) (msum b x o n) in ()
  let ghost prod_start (s : seq mono) (a b : fmap mono ff) ensures { out_prod s 0 a b (fempty : fmap mono ff) }
  = let lemma h (x : seq ff) (o n : int) ensures { msum (fempty : fmap mono ff) x o n = fzero } = msum_empty (pure { fempty : fmap mono ff }) x o n in ()

  (* std::transform (a.begin (), a.end (), b.begin (), r.begin (), std::plus<uint32_t> ()) *)
  use cxx.Vec
  val transform_plus_u32 (a b r : mono) : mono
    requires { [@expl:ranges long enough] length a <= length b /\ length a <= length r }
    ensures { length result = length r } ensures { vec_ok r -> vec_ok result } ensures { forall i. 0 <= i < length a -> 0 <= a[i] + b[i] <= 4294967295 -> result[i] = a[i] + b[i] }
    ensures { forall i. length a <= i < length r -> result[i] = r[i] }
    ensures { (forall i. 0 <= i < length r -> 0 <= r[i] <= 4294967295) -> forall i. 0 <= i < length r -> 0 <= result[i] <= 4294967295 }
    ensures { length a = length r -> (forall i. 0 <= i < length a -> 0 <= a[i] + b[i] <= 4294967295) -> result = madd a b }

  (* homogenisation: a first exponent in front of the others *)
  let rec ghost function sumto (k : mono) (n : int) : int variant { n } = if n <= 0 then 0 else sumto k (n - 1) + k[n - 1]
  let rec lemma sumto_mono (k : mono) (i n : int) requires { 0 <= i <= n } requires { forall j. 0 <= j < n -> k[j] >= 0 } ensures { 0 <= sumto k i <= sumto k n } variant { n }
  = if n > i then sumto_mono k i (n - 1) else if n > 0 then sumto_mono k (i - 1) (n - 1)
  let rec lemma sumto_front (k : mono) (e n : int) requires { 0 <= n <= length k } ensures { sumto (cons e k) (n + 1) = e + sumto k n } variant { n }
  = if n > 0 then sumto_front k e (n - 1)
  let rec ghost mval_front (x : seq ff) (k : mono) (e o n : int) requires { 0 <= o } requires { n + o <= length k } ensures { mval x (cons e k) (o + 1) n = mval x k o n } variant { n }
  = if n > 0 then mval_front x k e o (n - 1)
  lemma cons_inj : forall e f : int, k l : mono. cons e k = cons f l -> k = l by (forall i. 0 <= i < length k -> k[i] = (cons e k)[i + 1]) && length k = length (cons e k) - 1 && length l = length k && k == l
  let ghost hom_step (s : seq mono) (j : int) (t m r : fmap mono ff) (e : int)
    requires { 0 <= j < length s } requires { fmem s[j] t }
    requires { forall x o n. 0 <= o -> upto t (n + o) -> msum m x (o + 1) n = esum s j t x o n }
    requires { not fmem (cons e s[j]) m } requires { r = fadd_ (cons e s[j]) (fval t s[j]) m }
    ensures { forall x o n. 0 <= o -> upto t (n + o) -> msum r x (o + 1) n = esum s (j + 1) t x o n }
  = let k = s[j] in let v = fval t k in let q = pure { cons e k } in
    new_all q v m;
    let lemma h (x : seq ff) (o n : int) requires { 0 <= o } requires { upto t (n + o) } ensures { msum r x (o + 1) n = esum s (j + 1) t x o n }
    = mval_front x k e o n in ()

  (* the parser object that evaluates a polynomial in Horner form *)
  type parser
  val constant parser0 : parser
  function pval parser (seq ff) : ff
  predicate horner_ok (p : parser) (m : fmap mono ff) (n : int) = forall x. length x >= n - 1 -> pval p x = msum m x 1 (n - 1)
end
