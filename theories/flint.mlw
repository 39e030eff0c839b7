(* Contracts assumed of the FLINT word-size functions the FLINT build calls (external library, trusted). *)
module Flint
  use int.Int
  use int.EuclideanDivision
  use int.Power
  use number.Gcd
  function preinv int : int
  val n_preinvert_limb (n : int) : int requires { 0 < n <= 18446744073709551615 } ensures { result = preinv n } ensures { 0 <= result <= 18446744073709551615 }
  val n_mulmod2_preinv (a b n ni : int) : int requires { n > 0 /\ ni = preinv n } ensures { result = mod (a * b) n } ensures { 0 <= result < n }
  val n_powmod2_preinv (a e n ni : int) : int requires { n > 1 /\ ni = preinv n } requires { 0 <= a < n } requires { e >= 0 \/ gcd a n = 1 }
    ensures { 0 <= result < n } ensures { e >= 0 -> result = mod (power a e) n } ensures { e < 0 -> mod (result * power a (- e)) n = 1 }
  val n_invmod (x n : int) : int requires { n > 1 /\ gcd x n = 1 } ensures { 0 <= result < n /\ mod (result * x) n = 1 }
  val n_addmod (x y n : int) : int requires { 0 <= x < n /\ 0 <= y < n } ensures { result = mod (x + y) n } ensures { 0 <= result < n }
end
