(* Statements proved in coq/LdQuot.v (quot_range, quot_bounds, quot_normal), re-checked by coqc on every run. *)
module Quot
  use int.Int
  use real.RealInfix
  use real.FromInt
  use real.Abs
  use cxx.LongDouble
  axiom quot_range : forall a b m : int. 0 <= a < m -> 0 <= b < m -> m < 9223372036854775808 ->
    0.0 <=. rnd (rnd (from_int a *. from_int b) /. from_int m) <. 9223372036854775808.0
  axiom quot_bounds : forall a b m c : int. 0 <= a < m -> 0 <= b < m -> m < 9223372036854775808 ->
    from_int c <=. rnd (rnd (from_int a *. from_int b) /. from_int m) <. from_int c +. 1.0 ->
    (- m < a * b - c * m < 9223372036854775808) /\ (0 <= c < 9223372036854775808)
  axiom quot_normal : forall a b m : int. 0 <= a < m -> 0 <= b < m -> m < 9223372036854775808 ->
    normal (rnd (from_int a *. from_int b) /. from_int m)
  let lemma prod_normal (a b m : int)
    requires { 0 <= a < m } requires { 0 <= b < m } requires { m < 9223372036854775808 }
    ensures { normal (from_int a *. from_int b) }
  = assert { from_int a *. from_int b = from_int (a * b) };
    assert { 0 <= a * b <= 85070591730234615847396907784232501249 };
    assert { a * b = 0 \/ 1 <= a * b };
    assert { a * b = 0 \/ from_int 1 <=. from_int (a * b) };
    assert { from_int (a * b) <=. from_int 85070591730234615847396907784232501249 }
end
