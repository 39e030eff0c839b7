module Divis
  use int.Int
  use int.ComputerDivision as C
  use number.Divisibility
  let ghost function wit (d x : int) : int requires { divides d x } ensures { x = result * d }
  = any int ensures { x = result * d }
  let ghost make (d x k : int) requires { x = k * d } ensures { divides d x } = ()
  let lemma law_tmod (a b : int) requires { b <> 0 } ensures { divides b (a - C.mod a b) }
  = make b (a - C.mod a b) (C.div a b)
end

module Crt
  use int.Int
  use int.ComputerDivision as C
  use number.Divisibility
  use Divis
  let ghost crt_combine (r1 r2 n1 n2 m1 m2 a : int)
    requires { n1 > 0 } requires { n2 > 0 }
    requires { divides n1 (m1 - 1) } requires { divides n2 m1 }
    requires { divides (n1 * n2) (m1 + m2 - 1) }
    requires { divides (n1 * n2) (a - (m1 * r1 + m2 * r2)) }
    ensures { divides n1 (a - r1) } ensures { divides n2 (a - r2) }
  = let k1 = wit n1 (m1 - 1) in let k2 = wit n2 m1 in
    let k3 = wit (n1 * n2) (m1 + m2 - 1) in let k4 = wit (n1 * n2) (a - (m1 * r1 + m2 * r2)) in
    assert { m2 = (k3 * n2 - k1) * n1 };
    assert { m2 - 1 = (k3 * n1 - k2) * n2 };
    make n1 (a - r1) (k4 * n2 + k1 * r1 + (k3 * n2 - k1) * r2);
    make n2 (a - r2) (k4 * n1 + (k3 * n1 - k2) * r2 + k2 * r1)

  (* the remainder modulo n1*n2 stored in m2, possibly shifted by n *)
  let ghost crt_mod (x y n k : int)
    requires { n <> 0 } requires { divides n (x - y) } ensures { divides n (x - (y + k * n)) }
  = let w = wit n (x - y) in make n (x - (y + k * n)) (w - k)
end
