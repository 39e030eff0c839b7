(* Exact fractions.  The axioms are theorems of lean/RatRec.lean (same names). *)
module Rat
  use int.Int
  use int.Abs
  use int.ComputerDivision as C
  use number.Divisibility
  use number.Gcd
  predicate canon (n d : int) = d > 0 /\ gcd n d = 1
  (* n1/d1 = n2/d2 *)
  predicate same (n1 d1 n2 d2 : int) = n1 * d2 = n2 * d1

  axiom reduced_coprime : forall n d a b. d <> 0 -> n = gcd n d * a -> d = gcd n d * b -> gcd a b = 1
  axiom canon_unique : forall a b c d. b > 0 -> d > 0 -> gcd a b = 1 -> gcd c d = 1 -> a * d = c * b -> a = c /\ b = d

  let ghost tdiv_exact (a b k : int) requires { b <> 0 } requires { a = b * k } ensures { C.div a b = k }
  = let r = C.mod a b in let q = C.div a b in
    assert { a = b * q + r };
    assert { - abs b < r < abs b };
    assert { r = b * (k - q) };
    if k - q >= 1 then (if b > 0 then assert { b * (k - q) >= b } else assert { b * (k - q) <= b })
    else if k - q <= -1 then (if b > 0 then assert { b * (k - q) <= - b } else assert { b * (k - q) >= - b })

  let lemma gcd_positive (n d : int) requires { d <> 0 } ensures { gcd n d >= 1 }
  = assert { gcd n d >= 0 }; assert { divides (gcd n d) d };
    if gcd n d = 0 then assert { exists k. d = k * 0 }

  (* dividing numerator and denominator by their gcd *)
  let lemma reduce (n d : int) requires { d <> 0 }
    ensures { n = gcd n d * C.div n (gcd n d) } ensures { d = gcd n d * C.div d (gcd n d) }
    ensures { gcd (C.div n (gcd n d)) (C.div d (gcd n d)) = 1 }
    ensures { C.div n (gcd n d) * d = n * C.div d (gcd n d) }
    ensures { d > 0 -> C.div d (gcd n d) > 0 } ensures { C.div d (gcd n d) <> 0 }
  = let ghost g = gcd n d in
    gcd_positive n d;
    assert { divides g n /\ divides g d };
    assert { exists k. n = k * g };
    let ghost a = any int ensures { n = result * g } in
    assert { exists k. d = k * g };
    let ghost b = any int ensures { d = result * g } in
    tdiv_exact n g a; tdiv_exact d g b;
    assert { d > 0 -> b > 0 }

  let lemma gcd_neg (a b : int) requires { gcd a b = 1 } ensures { gcd (- a) b = 1 } ensures { gcd a (- b) = 1 } ensures { gcd (- a) (- b) = 1 }
  = assert { divides (gcd (-a) b) (-(-a)) };
    assert { divides (gcd (-a) b) a };
    assert { divides (gcd a (-b)) (-(-b)) };
    assert { divides (gcd (-a) (-b)) (-(-b)) };
    assert { divides (gcd (-a) (-b)) (-(-a)) }

  let lemma law_same (a b c d : int) requires { canon a b } requires { canon c d }
    ensures { same a b c d <-> a = c /\ b = d }
  = assert { same a b c d -> a * d = c * b };
    assert { gcd a b = 1 /\ gcd c d = 1 };
    if a * d = c * b then assert { a = c /\ b = d }
end
