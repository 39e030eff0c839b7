(* Semantics of the C++ library types used by the extracted code. *)
module Base
  use int.Int as Int
  exception Cxx_throw
  val throw_not_allowed () : unit requires { [@expl:exception not allowed by the contract] false }
  val any_bool () : bool
  (* this == &b: when true both have one value *)
  val same_object (a b : 'a) : bool ensures { result -> a = b }
  val beq (a b : bool) : bool ensures { result <-> (a <-> b) }
  val any_index (n : int) : int requires { Int.(>) n 0 } ensures { Int.(<=) 0 result && Int.(<) result n }
  val check_iter (found : bool) : unit requires { [@expl:dereference of end iterator] found }
end

module Pair
  type pair 'a 'b = { first : 'a; second : 'b }
end

module Vec
  use int.Int
  use export seq.Seq
  predicate vec_ok (s : seq 'a) = length s < 1152921504606846976
  val vget (s : seq 'a) (i : int) : 'a requires { [@expl:index in bounds] 0 <= i < length s } ensures { result = s[i] }
  val vset (s : seq 'a) (i : int) (v : 'a) : seq 'a requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i <- v] }
  (* allocation of 2^60 or more elements throws: these return only below that size *)
  val vpush (s : seq 'a) (v : 'a) : seq 'a ensures { result = snoc s v } ensures { vec_ok result }
  val vpop (s : seq 'a) : seq 'a requires { [@expl:pop of empty vector] length s > 0 } ensures { result = s[.. length s - 1] }
    ensures { length result = length s - 1 } ensures { forall i. 0 <= i < length result -> result[i] = s[i] }
  val vpopfront (s : seq 'a) : seq 'a requires { [@expl:pop of empty queue] length s > 0 } ensures { result = s[1 ..] }
    ensures { length result = length s - 1 } ensures { forall i. 0 <= i < length result -> result[i] = s[i + 1] }
  val vmake (n : int) (v : 'a) : seq 'a requires { n >= 0 } ensures { length result = n } ensures { vec_ok result }
    ensures { forall i. 0 <= i < n -> result[i] = v }
  val seq_make (n : int) (v : 'a) : seq 'a requires { n >= 0 } ensures { length result = n }
    ensures { forall i. 0 <= i < n -> result[i] = v }
  val any_seq (n : int) (v : 'a) : seq 'a requires { n >= 0 } ensures { length result = n }
  val vresize (s : seq 'a) (n : int) (v : 'a) : seq 'a requires { n >= 0 } ensures { length result = n } ensures { vec_ok result }
    ensures { forall i. 0 <= i < n -> result[i] = if i < length s then s[i] else v }
  val vslice (s : seq 'a) (i j : int) : seq 'a requires { [@expl:range in bounds] 0 <= i <= j <= length s } ensures { result = s[i..j] }
    ensures { length result = j - i } ensures { forall k. 0 <= k < j - i -> result[k] = s[i + k] }
  val vappend (s t : seq 'a) : seq 'a ensures { result = s ++ t } ensures { vec_ok result }
  val vinsert (s : seq 'a) (i : int) (v : 'a) : seq 'a requires { [@expl:position in bounds] 0 <= i <= length s }
    ensures { length result = length s + 1 } ensures { vec_ok result } ensures { i = 0 -> result = cons v s }
    ensures { forall k. 0 <= k <= length s -> result[k] = if k < i then s[k] else if k = i then v else s[k - 1] }
  val verase (s : seq 'a) (i : int) : seq 'a requires { [@expl:position in bounds] 0 <= i < length s }
    ensures { length result = length s - 1 } ensures { forall k. 0 <= k < length result -> result[k] = if k < i then s[k] else s[k + 1] }
  val vreverse (s : seq 'a) : seq 'a ensures { length result = length s }
    ensures { forall k. 0 <= k < length s -> result[k] = s[length s - 1 - k] }
  val veq (s t : seq 'a) : bool ensures { result <-> s = t }
end

module Mpz
  use int.Int
  use int.Abs
  use int.ComputerDivision as C
  use int.EuclideanDivision as E
  use number.Divisibility
  use number.Gcd
  (* GMP: division truncates towards zero, % follows the sign of the dividend *)
  val mpz_tdiv (a b : int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = C.div a b }
    ensures { a >= 0 /\ b > 0 -> result >= 0 /\ result * b <= a < result * b + b }
  val mpz_tmod (a b : int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = C.mod a b }
    ensures { b > 0 -> - b < result < b } ensures { a >= 0 /\ b > 0 -> result >= 0 } ensures { a <= 0 /\ b > 0 -> result <= 0 }
    ensures { a = b * C.div a b + result }
  val mpz_gcd (a b : int) : int ensures { result = gcd a b } ensures { result >= 0 }
  val mpz_abs (a : int) : int ensures { result = abs a }
  (* mpz_invert: returns whether the inverse exists; if not, the result operand is undefined *)
  val mpz_invert (old_ a m : int) : (bool, int) requires { [@expl:division by zero] m <> 0 }
    returns { (ok, r) -> (ok <-> gcd a m = 1) /\ (ok -> 0 <= r < abs m /\ divides m (a * r - 1)) }
  function sizeinbase int int : int
  axiom sizeinbase_pos: forall n b. sizeinbase n b >= 1
  val mpz_sizeinbase (n b : int) : int ensures { result = sizeinbase n b } ensures { 1 <= result <= 137438953472 } (* the limb count is an int *)
end

module Str
  use int.Int
  type cstr
  function int_to_str int : cstr
  function str_to_int cstr : int
  axiom roundtrip : forall i. str_to_int (int_to_str i) = i
  val str_of_int (x : int) : cstr ensures { result = int_to_str x }
  val mpz_of_str (s : cstr) : int ensures { result = str_to_int s }
  val stoull (s : cstr) : int requires { [@expl:stoull argument in range] 0 <= str_to_int s <= 18446744073709551615 } ensures { result = str_to_int s }
end

module LongDouble
  (* x87 80-bit extended precision: 64-bit significand, round to nearest even.  rnd is Flocq's
     `round radix2 (FLX_exp 64) ZnearestE`; what is used about it is proved in coq/LdQuot.v.
     The exponent range is kept as an obligation (`normal`), which makes FLX exact for x87. *)
  use int.Int
  use real.Real
  use real.FromInt
  use real.Abs
  function rnd real : real
  predicate normal (x : real) = x = 0.0 \/ 0x1p-200 <= abs x <= 0x1p200
  val any_real () : real
  val ld_of_int (x : int) : real requires { Int.(<=) (-18446744073709551616) x /\ Int.(<=) x 18446744073709551616 } ensures { result = from_int x }
  val ld_mul (x y : real) : real requires { [@expl:no float overflow or underflow] normal (x * y) } ensures { result = rnd (x * y) }
  val ld_div (x y : real) : real requires { [@expl:float division by zero] y <> 0.0 } requires { [@expl:no float overflow or underflow] normal (x / y) } ensures { result = rnd (x / y) }
  val ld_add (x y : real) : real requires { [@expl:no float overflow or underflow] normal (x + y) } ensures { result = rnd (x + y) }
  val ld_sub (x y : real) : real requires { [@expl:no float overflow or underflow] normal (x - y) } ensures { result = rnd (x - y) }
  val ld_to_u64 (x : real) : int requires { [@expl:float to integer in range] 0.0 <= x < 18446744073709551616.0 }
    ensures { from_int result <= x < from_int result + 1.0 } ensures { Int.(<=) 0 result /\ Int.(<=) result 18446744073709551615 }
end
