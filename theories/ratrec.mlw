(* Rational reconstruction: the axiom is lean/RatRec.lean, theorem of the same name. *)
module Complete
  use int.Int
  use int.Abs
  use int.ComputerDivision as C
  use number.Divisibility
  use number.Gcd
  use rat.Rat
  (* n/d is a reduced fraction equal to a modulo p, with both parts at most sqrt(p/2) *)
  predicate small_fraction (a p n d : int) =
    d > 0 /\ gcd n d = 1 /\ divides p (n - a * d) /\ 2 * (n * n) <= p /\ 2 * (d * d) <= p

  (* consecutive remainders (r, newr) and cofactors (t, newt) of the Euclidean algorithm on (p, a) *)
  predicate lattice (p r t newr newt a : int) =
    p > 0 /\ 0 <= newr < r /\ newt <> 0 /\ t * newt <= 0 /\ r * abs newt + newr * abs t = p /\
    divides p (r - a * t) /\ divides p (newr - a * newt)
  axiom ratrec_complete : forall p r t newr newt a n d [lattice p r t newr newt a, small_fraction a p n d].
    lattice p r t newr newt a -> C.mod p 2 = 1 -> 2 * (newr * newr) <= p -> p < 2 * (r * r) ->
    small_fraction a p n d ->
    (newt > 0 -> newr = n /\ newt = d) /\ (newt < 0 -> - newr = n /\ - newt = d)

  (* one Euclidean step *)
  let ghost euclid_step (p a r t newr newt q : int)
    requires { p > 0 } requires { newr > 0 } requires { newr < r } requires { newt <> 0 } requires { t * newt <= 0 }
    requires { q = C.div r newr }
    requires { r * abs newt + newr * abs t = p } requires { divides p (r - a * t) } requires { divides p (newr - a * newt) }
    ensures { 0 <= r - q * newr < newr } ensures { q >= 1 } ensures { t - q * newt <> 0 } ensures { newt * (t - q * newt) <= 0 }
    ensures { newr * abs (t - q * newt) + (r - q * newr) * abs newt = p }
    ensures { divides p (r - q * newr - a * (t - q * newt)) }
    ensures { abs (t - q * newt) = abs t + q * abs newt }
  = assert { r = newr * q + C.mod r newr };
    assert { 0 <= C.mod r newr < newr };
    assert { q >= 1 };
    if newt > 0 then begin
      assert { t <= 0 }; assert { q * newt >= newt }; assert { abs (t - q * newt) = q * newt - t }; assert { abs t = - t }; assert { abs newt = newt };
      assert { newt * (q * newt - t) >= 0 } end
    else begin
      assert { t >= 0 }; assert { q * newt <= newt }; assert { abs (t - q * newt) = t - q * newt }; assert { abs t = t }; assert { abs newt = - newt };
      assert { newt * (t - q * newt) <= 0 } end;
    assert { newr * (abs t + q * abs newt) + (r - q * newr) * abs newt = r * abs newt + newr * abs t };
    assert { r - q * newr - a * (t - q * newt) = (r - a * t) - q * (newr - a * newt) };
    assert { divides p (q * (newr - a * newt)) }

  (* the exit of the reconstruction loop *)
  let ghost small_unique (p r t newr newt a : int)
    requires { lattice p r t newr newt a } requires { C.mod p 2 = 1 }
    requires { 2 * (newr * newr) <= p < 2 * (r * r) }
    ensures { forall n d. small_fraction a p n d -> (newt > 0 -> newr = n /\ newt = d) /\ (newt < 0 -> - newr = n /\ - newt = d) }
    ensures { forall n d. small_fraction a p n d -> gcd newr newt = 1 /\ 2 * (newt * newt) <= p }
    ensures { newt > 0 /\ 2 * (newt * newt) <= p /\ gcd newr newt = 1 -> small_fraction a p newr newt }
    ensures { newt < 0 /\ 2 * (newt * newt) <= p /\ gcd newr newt = 1 -> small_fraction a p (- newr) (- newt) }
  = assert { forall n d. small_fraction a p n d -> gcd n d = 1 };
    assert { forall n d. small_fraction a p n d -> gcd (- n) (- d) = 1 };
    assert { forall n d. small_fraction a p n d -> (newt > 0 -> newr = n /\ newt = d) /\ (newt < 0 -> - newr = n /\ - newt = d) };
    if newt < 0 then begin
      assert { forall n d. small_fraction a p n d -> newr = - n /\ newt = - d };
      assert { divides p (- (newr - a * newt)) };
      assert { - newr - a * (- newt) = - (newr - a * newt) };
      assert { divides p (- newr - a * (- newt)) };
      assert { gcd newr newt = 1 -> gcd (- newr) (- newt) = 1 } end
    else assert { forall n d. small_fraction a p n d -> newr = n /\ newt = d }

  (* maximal-quotient variant *)
  let ghost mqrr_step (p u r0 t0 r1 t1 q : int)
    requires { lattice p r0 t0 r1 t1 u } requires { r1 > 0 } requires { q = C.div r0 r1 }
    ensures { lattice p r1 t1 (r0 - q * r1) (t0 - q * t1) u } ensures { r1 * abs t1 * q <= p } ensures { q >= 1 }
  = euclid_step p u r0 t0 r1 t1 q;
    let w = abs t1 in
    assert { q * r1 <= r0 };
    assert { (q * r1) * w <= r0 * w };
    assert { r1 * abs t0 >= 0 };
    assert { r1 * w * q = (q * r1) * w }

  predicate quotient_fraction (p u n d b : int) = canon n d /\ divides p (n - u * d) /\ abs n * d * (b + 1) <= p

  let ghost mqrr_exit (p u n d q b : int)
    requires { d <> 0 } requires { divides p (n - u * d) } requires { 0 <= n } requires { n * abs d * q <= p } requires { q > b >= 0 }
    ensures { gcd n d = 1 /\ d > 0 -> quotient_fraction p u n d b }
    ensures { gcd n d = 1 /\ d < 0 -> quotient_fraction p u (- n) (- d) b }
    ensures { d < 0 -> abs d = - d }
  = let m = n * abs d in
    assert { m >= 0 };
    assert { m * (b + 1) <= m * q };
    if d < 0 then begin
      assert { divides p (- (n - u * d)) };
      assert { - n - u * (- d) = - (n - u * d) };
      assert { gcd n d = 1 -> gcd (- n) (- d) = 1 };
      assert { abs (- n) * (- d) = m } end
    else assert { abs n * d = m }
end
