module Poly
  use int.Int
  use seq.Seq
  use seq.Reverse
  use cxx.Vec
  use ffield.Field
  use fflaws.Laws
  use polylaws.PolyLaws
  function cf (s : seq ff) (i : int) : ff = coefp (tp s) i
  (* std::reverse over a whole vector *)
  val vreverse (s : seq 'a) : seq 'a ensures { length result = length s } ensures { forall i. 0 <= i < length s -> result[i] = s[length s - 1 - i] }
  let ghost product_fits (a b r : seq ff)
    requires { length a >= 1 /\ length b >= 1 } requires { length r = (dg a + 1) * (dg b + 1) } requires { forall k. 0 <= k < length r -> r[k] = coefp (pmul (tp a) (tp b)) k }
    ensures { tp r = pmul (tp a) (tp b) }
  = deg_mul (tp a) (tp b) (dg a) (dg b);
    assert { (dg a + 1) * (dg b + 1) = dg a * dg b + dg a + dg b + 1 };
    assert { length r >= dg a + dg b + 1 };
    pol_ext (tp r) (pmul (tp a) (tp b))

  predicate fits (a b : int) = (a + 1) * (b + 1) <= 18446744073709551615
  lemma fit_small : forall a b. 0 <= a <= 536870912 -> 0 <= b <= 536870912 -> fits a b
  lemma prod_pos : forall a b. 0 <= a -> 0 <= b -> (a + 1) * (b + 1) >= 1
  let lemma pop_agree (s : seq ff) (p : pol) (l : int) requires { l < length s } requires { agree (tp s) p l } ensures { agree (tp s[.. length s - 1]) p l }
  = let r = pure { s[.. length s - 1] } in assert { forall i. 0 <= i < length s - 1 -> r[i] = s[i] }; assert { forall i. 0 <= i < l -> coefp (tp r) i = coefp (tp s) i by r[i] = s[i] /\ i < length r }
  let lemma tp_prefix (s : seq ff) requires { length s >= 1 } ensures { tp s[.. dg s + 1] = tp s }
  = let p = pure { s[.. dg s + 1] } in
    assert { length p = dg s + 1 /\ forall i. 0 <= i <= dg s -> p[i] = s[i] };
    assert { forall i. dg s < i -> coefp (tp s) i = fzero };
    assert { forall i. 0 <= i -> coefp (tp p) i = coefp (tp s) i };
    pol_ext (tp p) (tp s)
  let lemma dg_prod (s a b : seq ff) requires { length s >= 1 } requires { length a >= 1 } requires { length b >= 1 } requires { tp s = pmul (tp a) (tp b) } ensures { dg s <= dg a + dg b }
  = deg_mul (tp a) (tp b) (dg a) (dg b); assert { degle (tp s) (dg a + dg b) }
  let lemma zero_div (q z r : pol) requires { forall i. 0 <= i -> coefp q i = fzero } ensures { padd (pmul q z) r = r }
  = assert { forall i. 0 <= i -> coefp (pmul q z) i = fzero }; pol_ext (padd (pmul q z) r) r
end
module DgKeep
  use int.Int
  use seq.Seq
  use ffield.Field
  use polylaws.PolyLaws
  let lemma dg_keep (s t : seq ff) (i : int) (v : ff) requires { 0 <= i < dg s } requires { t = s[i <- v] } requires { length s >= 1 } ensures { dg t = dg s }
  = assert { t[dg s] = s[dg s] }; assert { forall k. dg s < k < length s -> t[k] = fzero }; assert { degle (tp t) (dg s) }; dg_is_ t (dg s)
end
module Dbl
  use int.Int
  use int.ComputerDivision
  use int.Power
  (* double precision as far as it is used: exact integers below 2^52, and the logarithm of such an integer *)
  type dbl = Dint int | Dlog int | Dother
  let rec lemma pow2_mono (i k : int) requires { 0 <= i <= k } ensures { 1 <= power 2 i <= power 2 k } ensures { i >= 1 -> power 2 i = 2 * power 2 (i - 1) } variant { k }
  = if i < k then pow2_mono i (k - 1) else if k > 0 then pow2_mono (i - 1) (k - 1)
  let rec ghost function clog (n : int) : int requires { 1 <= n } ensures { 0 <= result } ensures { n <= power 2 result < 2 * n } variant { n }
  = if n <= 1 then 0 else clog (div (n + 1) 2) + 1
  let rec lemma clog_small (n k : int) requires { 0 <= k } requires { 1 <= n <= power 2 k } ensures { clog n <= k } variant { n }
  = if n > 1 then clog_small (div (n + 1) 2) (k - 1)
  val any_dbl () : dbl
  val dbl_of_int (x : int) : dbl requires { [@expl:exact in double precision] 0 <= x <= 4503599627370496 } ensures { result = Dint x }
  val dbl_add (x y : dbl) : dbl ensures { forall a b. x = Dint a -> y = Dint b -> 0 <= a -> 0 <= b -> a + b <= 4503599627370496 -> result = Dint (a + b) }
  val dbl_log2 (x : dbl) : dbl ensures { forall n. x = Dint n -> 1 <= n <= 4294967296 -> result = Dlog n }
  val dbl_ceil (x : dbl) : dbl ensures { forall n. x = Dlog n -> result = Dint (clog n) }
  val dbl_exp2 (x : dbl) : dbl ensures { forall k. x = Dint k -> 0 <= k <= 52 -> result = Dint (power 2 k) }
  val dbl_to_u64 (x : dbl) : int requires { [@expl:float to integer in range] match x with Dint k -> 0 <= k <= 9007199254740992 | _ -> false end } ensures { x = Dint result } ensures { 0 <= result <= 18446744073709551615 }
  let lemma clog_27 (n : int) requires { 1 <= n <= 134217728 } ensures { 0 <= clog n <= 27 }
  = assert { power 2 9 = 512 }; assert { power 2 18 = power 2 9 * power 2 9 }; assert { power 2 27 = power 2 18 * power 2 9 }; clog_small n 27
end
module Divide
  use int.Int
  use int.Power
  use seq.Seq
  use ffield.Field
  use fflaws.Laws
  use polylaws.PolyLaws
  use Poly
  function rv (s : seq ff) : seq ff = create (dg s + 1) (fun i -> s[dg s - i])
  let ghost rv_is (s r : seq ff) requires { length s >= 1 } requires { length r = dg s + 1 } requires { forall i. 0 <= i <= dg s -> r[i] = s[dg s - i] } ensures { r = rv s }
  = assert { r == rv s }
  lemma rv_coef : forall s i. length s >= 1 -> 0 <= i -> coefp (tp (rv s)) i = coefp (tp s) (dg s - i)
  (* the first approximation of the inverse *)
  let ghost start (f g : seq ff) requires { length f >= 1 } requires { f[0] = fone } requires { length g = 1 } requires { g[0] = fone } ensures { isone (pmul (tp f) (tp g)) 1 } ensures { degle (tp g) 0 }
  = assert { pmul (tp f) (tp g) = tp f }
  (* the quotient is found from the first m + 1 coefficients of s; zg: the divisor, b: the same with leading coefficient one, q: s reversed *)
  let ghost finish (a z b f g s q : seq ff) (m : int)
    requires { length a >= 1 /\ length z >= 1 /\ length b >= 1 /\ length s >= 1 } requires { dg b = dg z } requires { 0 <= m } requires { dg a = m + dg z }
    requires { z[dg z] <> fzero } requires { tp b = pscale (fdiv fone z[dg z]) (tp z) } requires { f = rv b }
    requires { isone (pmul (tp f) (tp g)) (m + 1) } requires { agree (tp s) (pmul (tp (rv a)) (tp g)) (m + 1) } requires { dg s <= m }
    requires { length q = m + 1 } requires { forall i. 0 <= i <= m -> q[i] = if i < m - dg s then fzero else s[m - i] }
    ensures { degle (psub (tp a) (pmul (tp b) (tp q))) (dg z - 1) }
    ensures { tp a = padd (pmul (pscale (fdiv fone z[dg z]) (tp q)) (tp z)) (psub (tp a) (pmul (tp b) (tp q))) }
  = assert { forall i. 0 <= i -> coefp (tp (rv a)) i = coefp (tp a) (dg b + m - i) };
    assert { forall i. 0 <= i -> coefp (tp q) i = coefp (tp s) (m - i) };
    division (tp a) (tp b) (tp f) (tp g) (tp (rv a)) (tp s) (tp q) (dg b) m;
    scale_out (tp z) (tp q) (fdiv fone z[dg z])
  (* s[0] <> 0 *)
  let ghost monic (z p b : seq ff) requires { length z >= 1 } requires { p = z[.. dg z + 1] } requires { length b = dg z + 1 } requires { z[dg z] <> fzero } requires { tp b = pscale (fdiv fone z[dg z]) (tp p) }
    ensures { tp b = pscale (fdiv fone z[dg z]) (tp z) } ensures { b[dg z] = fone } ensures { dg b = dg z }
  = assert { coefp (tp b) (dg z) = fmul (coefp (tp z) (dg z)) (fdiv fone z[dg z]) }; assert { coefp (tp z) (dg z) = z[dg z] }; assert { coefp (tp b) (dg z) = b[dg z] }; assert { b[dg z] = fone }; dg_is_ b (dg z)
  let ghost front (a f g s : seq ff) (m : int)
    requires { length a >= 1 /\ length f >= 1 /\ length g >= 1 /\ length s >= 1 } requires { a[dg a] <> fzero } requires { f[0] = fone } requires { 0 <= m }
    requires { isone (pmul (tp f) (tp g)) (m + 1) } requires { agree (tp s) (pmul (tp (rv a)) (tp g)) (m + 1) }
    ensures { s[0] <> fzero }
  = csum_step (tp f) (tp g) 0 0; csum_step (tp (rv a)) (tp g) 0 0;
    assert { coefp (pmul (tp f) (tp g)) 0 = fmul f[0] g[0] };
    assert { g[0] = fone };
    assert { coefp (tp s) 0 = fmul a[dg a] g[0] }
end
module Gcd
  use int.Int
  use seq.Seq
  use ffield.Field
  use polylaws.PolyLaws
  use Poly
  function rank (s : seq ff) : int = if dg s = 0 /\ s[0] = fzero then 0 else dg s + 1
  let ghost rank_less (b r : seq ff) requires { length b >= 1 } requires { length r >= 1 } requires { nonzero b } requires { degle (tp r) (dg b - 1) } ensures { 0 <= rank r < rank b } ensures { dg r <= dg b }
  = if pure { dg b = 0 } then begin assert { dg r <= 0 by degle (tp r) 0 }; assert { coefp (tp r) 0 = r[0] } end else assert { dg r <= dg b - 1 }
  let ghost iszero_dvd (a b : seq ff) requires { length b >= 1 } requires { dg b = 0 } requires { b[0] = fzero } ensures { pdvd (tp a) (tp b) }
  = assert { forall i. 0 <= i -> coefp (tp b) i = fzero }
  let ghost gcd_step (a b r : seq ff) (c d : pol) requires { exists q. tp a = padd (pmul q (tp b)) (tp r) }
    requires { forall p. pdvd p (tp a) /\ pdvd p (tp b) -> pdvd p c /\ pdvd p d } requires { comb (tp a) c d } requires { comb (tp b) c d }
    ensures { forall p. pdvd p (tp b) /\ pdvd p (tp r) -> pdvd p c /\ pdvd p d } ensures { comb (tp r) c d }
  = let ghost q = any pol ensures { tp a = padd (pmul result (tp b)) (tp r) } in
    comb_rem (tp a) (tp b) q (tp r) c d;
    let lemma dv (p : pol) requires { pdvd p (tp b) } requires { pdvd p (tp r) } ensures { pdvd p c /\ pdvd p d } = dvd_comb p (tp a) (tp b) q (tp r) in ()
end
