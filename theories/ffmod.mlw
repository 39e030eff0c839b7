module Mod
  use int.Int
  use int.EuclideanDivision
  use number.Prime
  predicate good_modulus (p : int) = 3 <= p < 9223372036854775808 /\ prime p

  let ghost mod_unique (a k m r : int)
    requires { 0 <= r < m } requires { a = k * m + r } ensures { r = mod a m } ensures { k = div a m }
  = assert { a = m * div a m + mod a m };
    assert { m * (k - div a m) = mod a m - r };
    assert { k - div a m >= 1 -> m * (k - div a m) >= m };
    assert { k - div a m <= -1 -> m * (k - div a m) <= - m }

  let ghost mod_add_mult (a k m : int)
    requires { m > 0 } ensures { mod (a + k * m) m = mod a m }
  = mod_unique (a + k * m) (k + div a m) m (mod a m)

  let ghost mod_mul_left (a b m : int)
    requires { m > 0 } ensures { mod (mod a m * b) m = mod (a * b) m }
  = assert { a = m * div a m + mod a m };
    assert { mod a m * b = a * b + (- (div a m * b)) * m };
    mod_add_mult (a * b) (- (div a m * b)) m

  let ghost mod_mul_right (a b m : int)
    requires { m > 0 } ensures { mod (a * mod b m) m = mod (a * b) m }
  = mod_mul_left b a m;
    assert { a * mod b m = mod b m * a }; assert { a * b = b * a }

  let ghost mod_sub_mult (a c m : int)
    requires { m > 0 } ensures { mod (a - c * m) m = mod a m }
  = assert { a - c * m = a + (- c) * m }; mod_add_mult a (- c) m

  let ghost mod_mod (a m : int)
    requires { m > 0 } ensures { mod (mod a m) m = mod a m }
  = mod_unique (mod a m) 0 m (mod a m)

  use int.Power

  let rec ghost power_mod (b m n : int)
    requires { m > 0 } requires { n >= 0 } ensures { mod (power (mod b m) n) m = mod (power b n) m }
    variant { n }
  = if n > 0 then begin
      power_mod b m (n - 1);
      assert { power b n = b * power b (n - 1) };
      assert { power (mod b m) n = mod b m * power (mod b m) (n - 1) };
      let bb = mod b m in let q = power (mod b m) (n - 1) in let w = power b (n - 1) in
      mod_mul_left b q m;
      mod_mul_right b q m;
      mod_mul_right b w m;
      assert { mod (bb * q) m = mod (b * q) m };
      assert { mod (b * q) m = mod (b * w) m };
      assert { power (mod b m) n = bb * q };
      assert { power b n = b * w }
    end

  let rec ghost power_square (b n : int)
    requires { n >= 0 } ensures { power (b * b) n = power b (2 * n) } variant { n }
  = if n > 0 then begin power_square b (n - 1);
      assert { power b (2 * n) = b * power b (2 * n - 1) };
      assert { power b (2 * n - 1) = b * power b (2 * n - 2) };
      let w = power b (2 * n - 2) in
      let z = power (b * b) (n - 1) in
      assert { power (b * b) n = (b * b) * z };
      assert { 2 * (n - 1) = 2 * n - 2 };
      assert { z = w };
      assert { (b * b) * w = b * (b * w) };
      assert { power b (2 * n) = b * (b * w) } end

  (* one step of square-and-multiply *)
  let ghost pow_step (res base e m : int)
    requires { m > 0 } requires { e >= 1 }
    ensures { mod e 2 <> 0 -> mod (mod (res * base) m * power (mod (base * base) m) (div e 2)) m = mod (res * power base e) m }
    ensures { mod e 2 = 0 -> mod (res * power (mod (base * base) m) (div e 2)) m = mod (res * power base e) m }
  = let k = div e 2 in
    assert { e = 2 * k + mod e 2 };
    assert { mod e 2 = 0 \/ mod e 2 = 1 };
    power_square base k;
    power_mod (base * base) m k;
    let q = power (mod (base * base) m) k in
    let w = power base (2 * k) in
    assert { mod q m = mod w m };
    if mod e 2 = 0 then begin
      mod_mul_right res q m; mod_mul_right res w m
    end else begin
      assert { power base e = base * w };
      mod_mul_left (res * base) q m;
      mod_mul_right (res * base) q m;
      mod_mul_right (res * base) w m;
      assert { res * (base * w) = (res * base) * w }
    end

  (* Schrage-free product: what mod_mul's final adjustment computes *)
  let ghost mulmod_adjust (a b m c r : int)
    requires { m > 0 }
    requires { mod r m = mod (mod a m * mod b m - c * m) m }
    ensures { mod r m = mod (a * b) m }
  = mod_sub_mult (mod a m * mod b m) c m;
    mod_mul_left a (mod b m) m;
    mod_mul_right a b m

  let ghost mod_small (a m : int)
    requires { 0 <= a < m } ensures { mod a m = a }
  = mod_unique a 0 m a

  let ghost mod_neg (n m : int)
    requires { m > 0 } ensures { mod n m = if mod (- n) m = 0 then 0 else m - mod (- n) m }
  = let r = mod (- n) m in
    assert { - n = m * div (- n) m + r };
    if r = 0 then mod_unique n (- div (- n) m) m 0 else begin
      assert { n = (- div (- n) m - 1) * m + (m - r) };
      mod_unique n (- div (- n) m - 1) m (m - r) end
end

module Fermat
  use int.Int
  use int.EuclideanDivision
  use int.Power
  use number.Prime
  use Mod
  use export number.Gcd
  use export number.Coprime
  (* Fermat's little theorem; proved in lean/Facts.lean (theorem fermat) *)
  val ghost fermat (a p : int) : unit requires { prime p } requires { 0 < a < p } ensures { mod (power a (p - 1)) p = 1 }

  let rec ghost power_one (k : int) requires { k >= 0 } ensures { power 1 k = 1 } variant { k }
  = if k > 0 then power_one (k - 1)

  let ghost pow_neg (a b k p : int)
    requires { p >= 2 } requires { mod (b * a) p = 1 } requires { k >= 0 }
    ensures { mod (power b k * power a k) p = 1 }
    ensures { mod (mod (power b k) p * power a k) p = 1 }
  = power_mod (b * a) p k; power_one k; mod_small 1 p;
    assert { power (b * a) k = power b k * power a k };
    mod_mul_left (power b k) (power a k) p

  let ghost pow_inverse (a b e k p : int)
    requires { prime p } requires { 0 < a < p } requires { mod (b * a) p = 1 }
    requires { e >= 0 } requires { k >= 0 } requires { e + k = p - 1 }
    ensures { mod (power b k) p = mod (power a e) p }
  = pow_neg a b k p; fermat a p;
    let x = power b k in let y = power a k in let z = power a e in
    assert { power a (p - 1) = z * y };
    mod_mul_right x (z * y) p;      (* x * 1 = x * (z * y) *)
    mod_mul_right z (x * y) p;      (* z * 1 = z * (x * y) *)
    assert { mod (x * (z * y)) p = mod (x * 1) p };
    assert { mod (z * (x * y)) p = mod (z * 1) p };
    assert { x * (z * y) = z * (x * y) }

  let rec ghost power_zero (k : int) requires { k >= 1 } ensures { power 0 k = 0 } variant { k }
  = if k > 1 then power_zero (k - 1)

  let ghost prime_gcd (a p : int) requires { prime p } requires { 0 < a < p } ensures { gcd a p = 1 }
  = assert { coprime a p }
end

module Wrap
  use int.Int
  use int.EuclideanDivision
  use Mod
  (* t - q * n computed in uint64_t from int64_t t, n and read back as int64_t *)
  let ghost wrap_msub (t q n : int)
    requires { -9223372036854775808 <= t <= 9223372036854775807 } requires { -9223372036854775808 <= n <= 9223372036854775807 }
    requires { 0 <= q <= 18446744073709551615 }
    requires { -9223372036854775808 <= t - q * n <= 9223372036854775807 }
    ensures { forall nu tu x d. nu = (if n >= 0 then n else n + 18446744073709551616) ->
              tu = (if t >= 0 then t else t + 18446744073709551616) ->
              x = mod (q * nu) 18446744073709551616 ->
              d = (if tu >= x then tu - x else tu - x + 18446744073709551616) ->
              (if d <= 9223372036854775807 then d else d - 18446744073709551616) = t - q * n }
  = let w = 18446744073709551616 in
    let nu = if n >= 0 then n else n + w in
    let tu = if t >= 0 then t else t + w in
    let x = mod (q * nu) w in
    let d = if tu >= x then tu - x else tu - x + w in
    assert { 0 <= x < w };
    assert { q * nu = w * div (q * nu) w + x };
    let k = div (q * nu) w - (if n >= 0 then 0 else q) in
    assert { q * nu = q * n + w * (if n >= 0 then 0 else q) };
    assert { x = q * n - k * w };
    let v = if d <= 9223372036854775807 then d else d - w in
    let j = (if t >= 0 then 0 else 1) + (if tu >= x then 0 else 1) - (if d <= 9223372036854775807 then 0 else 1) in
    assert { v = t - x + j * w };
    assert { v = t - q * n + (k + j) * w };
    assert { k + j >= 1 -> (k + j) * w >= w };
    assert { k + j <= -1 -> (k + j) * w <= - w };
    assert { v = t - q * n }

  (* x - y computed from the residues of x and y in uint64_t and read back as int64_t *)
  let ghost wrap_diff (x y : int)
    requires { -9223372036854775808 <= x - y <= 9223372036854775807 }
    ensures { forall xu yu d. xu = mod x 18446744073709551616 -> yu = mod y 18446744073709551616 ->
              d = (if xu >= yu then xu - yu else xu - yu + 18446744073709551616) ->
              (if d <= 9223372036854775807 then d else d - 18446744073709551616) = x - y }
  = let w = 18446744073709551616 in
    let xu = mod x w in let yu = mod y w in
    let kx = div x w in let ky = div y w in
    assert { x = w * kx + xu }; assert { y = w * ky + yu };
    assert { 0 <= xu < w }; assert { 0 <= yu < w };
    let d = if xu >= yu then xu - yu else xu - yu + w in
    let v = if d <= 9223372036854775807 then d else d - w in
    let j = (if xu >= yu then 0 else 1) - (if d <= 9223372036854775807 then 0 else 1) - kx + ky in
    assert { v = x - y + j * w };
    assert { j >= 1 -> j * w >= w };
    assert { j <= -1 -> j * w <= - w }

  (* the Bezout bound kept by the extended Euclidean algorithm *)
  use int.Abs
  let ghost prod_sign (a b : int) requires { (a > 0 /\ b <= 0) \/ (a < 0 /\ b >= 0) \/ a = 0 } ensures { a * b <= 0 } = ()
  let ghost dist (a b c : int) ensures { a * (b - c) = a * b - a * c } = ()
  let ghost dist2 (a b c : int) ensures { (a + b) * c = a * c + b * c } = ()

  let ghost euclid_cofactor (t n q r s m : int)
    requires { q >= 0 } requires { t * n <= 0 } requires { abs t * s + abs n * r = m }
    ensures { abs (t - q * n) = abs t + q * abs n }
    ensures { n * (t - q * n) <= 0 }
    ensures { abs n * (r - q * s) + abs (t - q * n) * s = m }
  = assert { t >= 0 /\ n <= 0 \/ t <= 0 /\ n >= 0 };
    let an = abs n in let ab = abs t in let qa = q * an in
    assert { qa >= 0 };
    assert { n >= 0 -> q * n = qa }; assert { n <= 0 -> q * n = - qa };
    assert { n > 0 -> t - q * n <= 0 }; assert { n < 0 -> t - q * n >= 0 };
    let z = abs (t - q * n) in
    assert { z = ab + qa };
    prod_sign n (t - q * n);
    dist an r (q * s); dist2 ab qa s;
    assert { an * (q * s) = qa * s };
    assert { an * (r - q * s) = an * r - qa * s };
    assert { z * s = ab * s + qa * s }

  let ghost euclid_bound (x s y r m : int)
    requires { x >= 0 /\ y >= 0 /\ s >= 0 /\ r >= 0 } requires { x * s + y * r = m }
    ensures { s >= 1 -> x <= m } ensures { r >= 2 -> 2 * y <= m } ensures { r >= 1 -> y <= m }
  = assert { x * s >= 0 }; assert { y * r >= 0 }; assert { s >= 1 -> x * s >= x }; assert { r >= 2 -> y * r >= y * 2 };
    assert { r >= 1 -> y * r >= y }
end

(* the same facts as quantified lemmas, instantiated by the solvers *)
module Laws
  use int.Int
  use int.EuclideanDivision
  use int.Power
  use number.Prime
  use Mod
  use Fermat
  let lemma law_pow_inverse (a b e k p : int)
    requires { prime p } requires { 0 < a < p } requires { mod (b * a) p = 1 }
    requires { e >= 0 } requires { k >= 0 } requires { e + k = p - 1 }
    ensures { mod (power b k) p = mod (power a e) p }
  = pow_inverse a b e k p
  let lemma law_pow_neg (a b k p : int)
    requires { p >= 2 } requires { mod (b * a) p = 1 } requires { k >= 0 }
    ensures { mod (mod (power b k) p * power a k) p = 1 }
  = pow_neg a b k p
  let lemma law_mod_mod (x p : int) requires { p > 0 } ensures { mod (mod x p) p = mod x p }
  = mod_mod x p
  let lemma law_mod_small (x p : int) requires { 0 <= x < p } ensures { mod x p = x }
  = mod_small x p
  let lemma law_div (a b c p : int) requires { p > 0 } requires { mod (c * b) p = 1 } requires { 0 <= a < p }
    ensures { mod (mod (a * c) p * b) p = a }
  = mod_mul_left (a * c) b p; assert { (a * c) * b = a * (c * b) }; mod_mul_right a (c * b) p; mod_small a p
  let lemma law_prime_gcd (a p : int) requires { prime p } requires { 0 < a < p } ensures { gcd a p = 1 }
  = prime_gcd a p
  let lemma law_gcd_comm (a b : int) ensures { gcd a b = gcd b a } = ()
  let lemma law_power_zero (k : int) requires { k >= 1 } ensures { power 0 k = 0 } = power_zero k
  let lemma law_power_two (x : int) ensures { power x 2 = x * x } = assert { power x 2 = x * power x 1 }
  let lemma law_mod_neg (n m : int) requires { m > 0 } requires { n < 0 }
    ensures { mod n m = if mod (- n) m = 0 then 0 else m - mod (- n) m } = mod_neg n m
  let lemma law_wrap_add (x p : int) requires { - p <= x < 0 } ensures { mod x p = x + p } = mod_unique x (-1) p (x + p)
  let lemma law_wrap_sub (x p : int) requires { p <= x < 2 * p } ensures { mod x p = x - p } = mod_unique x 1 p (x - p)
end
