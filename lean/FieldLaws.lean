import Mathlib.Tactic
import Mathlib.Algebra.Field.Basic
/-! Generated by tool/gen_laws.py from theories/laws.txt. -/
variable {F : Type*} [Field F]

theorem law_add0r (a : F) : (a + (0 : F)) = a := by
  simp

theorem law_add0l (a : F) : ((0 : F) + a) = a := by
  simp

theorem law_sub0r (a : F) : (a - (0 : F)) = a := by
  simp

theorem law_subself (a : F) : (a - a) = (0 : F) := by
  simp

theorem law_mul0r (a : F) : (a * (0 : F)) = (0 : F) := by
  simp

theorem law_mul0l (a : F) : ((0 : F) * a) = (0 : F) := by
  simp

theorem law_mul1r (a : F) : (a * (1 : F)) = a := by
  simp

theorem law_mul1l (a : F) : ((1 : F) * a) = a := by
  simp

theorem law_div0l (a : F) : ((0 : F) / a) = (0 : F) := by
  simp

theorem law_div0r (a : F) : (a / (0 : F)) = (0 : F) := by
  simp

theorem law_div1 (a : F) : (a / (1 : F)) = a := by
  simp

theorem law_neg0 (a : F) : (-(-a)) = a := by
  simp

theorem law_negz : (-(0 : F)) = (0 : F) := by
  simp

theorem law_one_ne_zero : (1 : F) ≠ (0 : F) := by
  simp

theorem law_mul_eq_zero (a b : F) (h0 : (a * b) = (0 : F)) : (a = (0 : F) ∨ b = (0 : F)) := by
  simpa using h0

theorem law_neg_eq_zero (a : F) (h0 : (-a) = (0 : F)) : a = (0 : F) := by
  simpa using h0

theorem law_div_eq_zero (a b : F) (h0 : (a / b) = (0 : F)) : (a = (0 : F) ∨ b = (0 : F)) := by
  simpa using h0

theorem law_axpy (u v r s x c : F) : (((r + (c * s)) * x) + (u + (c * v))) = (((r * x) + u) + (c * ((s * x) + v))) := by
  ring

theorem law_elim (a p : F) (h0 : p ≠ (0 : F)) : (a + (((-a) / p) * p)) = (0 : F) := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_assoc_add (a b c : F) : (a + (b + c)) = ((a + b) + c) := by
  ring

theorem law_comm_add (a b : F) : (a + b) = (b + a) := by
  ring

theorem law_comm_mul (a b : F) : (a * b) = (b * a) := by
  ring

theorem law_assoc_mul (a b c : F) : (a * (b * c)) = ((a * b) * c) := by
  ring

theorem law_distr (a b c : F) : (a * (b + c)) = ((a * b) + (a * c)) := by
  ring

theorem law_divmul (a b : F) (h0 : b ≠ (0 : F)) : ((a / b) * b) = a := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_muldiv (a b : F) (h0 : b ≠ (0 : F)) : ((a * b) / b) = a := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_sub_step (f s a x : F) : ((f - s) - (a * x)) = (f - ((a * x) + s)) := by
  ring

theorem law_back_step (d f s : F) (h0 : d ≠ (0 : F)) : ((d * ((f - s) / d)) + s) = f := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_sub_to_zero (a b : F) (h0 : a = b) : (a + (b * (-(1 : F)))) = (0 : F) := by
  linear_combination (h0)

theorem law_zero_to_eq (a b : F) (h0 : (a + (b * (-(1 : F)))) = (0 : F)) : a = b := by
  linear_combination (h0)

theorem law_sub_step2 (f s a x : F) : ((f - s) - (x * a)) = (f - ((a * x) + s)) := by
  ring

theorem law_back_step2 (d f s : F) (h0 : d ≠ (0 : F)) : ((d * ((f - s) / d)) + s) = f := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_lu_step (s x l u : F) : ((s + (l * u)) + (x - (l * u))) = (s + x) := by
  ring

theorem law_lu_diag (s x d : F) (h0 : d ≠ (0 : F)) : (s + ((x / d) * d)) = (s + x) := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_sub_axpy (x l u : F) : (x - (l * u)) = (x + ((-l) * u)) := by
  ring

theorem law_negmul (a b : F) : ((-a) * b) = (-(a * b)) := by
  ring

theorem law_add_cancel (s y d : F) (h0 : d = (s + y)) : (d - s) = y := by
  linear_combination (h0)

theorem law_div_solve (d f s : F) (h0 : d ≠ (0 : F)) : ((d * ((f - s) / d)) + s) = f := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_elim2 (a p : F) (h0 : p ≠ (0 : F)) : (a + ((-(a / p)) * p)) = (0 : F) := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_fold (f s a x : F) : ((f - s) - (a * x)) = (f - (s + (a * x))) := by
  ring

theorem law_refold (f s : F) : (s + (f - s)) = f := by
  ring

theorem law_pow0 (x : F) : (x ^ (0 : ℤ)) = (1 : F) := by
  simp

theorem law_pow_succ (x : F) (n : ℤ) (h0 : (n : ℤ) ≥ (0 : ℤ)) : (x ^ (n + 1 : ℤ)) = (x * (x ^ (n : ℤ))) := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0; exact_mod_cast (pow_succ' x k)

theorem law_synth (c v w d h : F) : (c + (w * (((w - v) * d) + h))) = (((w - v) * (h + (w * d))) + (c + (v * h))) := by
  ring

theorem law_mst_step (c d v z h : F) : ((c - (v * d)) + (z * (((z - v) * h) + d))) = (((z - v) * (d + (z * h))) + c) := by
  ring

theorem law_mst_base (c v z : F) : ((c - v) + z) = ((z - v) + c) := by
  ring

theorem law_dd_step (h a c w v d : F) : ((((v - a) * h) + c) + (w * (h + ((w - a) * d)))) = ((c + (v * h)) + ((w - a) * (h + (w * d)))) := by
  ring

theorem law_sub_ne (a b : F) (h0 : a ≠ b) : (a - b) ≠ (0 : F) := by
  exact sub_ne_zero.mpr h0

theorem law_acc_step (s x w r p h : F) : ((s + (x * w)) + ((r + (x * p)) * h)) = ((s + (r * h)) + (x * (w + (p * h)))) := by
  ring

theorem law_pow_dd (p w d h : F) : (((w * p) * d) + (p * h)) = (p * (h + (w * d))) := by
  ring

theorem law_two_div (x v d : F) (h0 : v ≠ (0 : F)) (h1 : d ≠ (0 : F)) : (((x * (v * d)) / d) / v) = x := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_swap_add (a b s : F) : (a + (b + s)) = (b + (a + s)) := by
  ring

theorem law_set_term (a d w s : F) : (((a + d) * w) + s) = (((a * w) + s) + (d * w)) := by
  ring

theorem law_scale_term (s a w c : F) : ((s * c) + ((a * c) * w)) = ((s + (a * w)) * c) := by
  ring

theorem law_sub0l (a : F) : ((0 : F) - a) = (-a) := by
  simp

theorem law_sub_neg (a b : F) : (a - b) = (a + (-b)) := by
  ring

theorem law_acc_sub (t e d w : F) : ((t - e) + ((-d) * w)) = (t - (e + (d * w))) := by
  ring

theorem law_sub00 (a : F) : (a - (0 : F)) = a := by
  simp

theorem law_neg_mul_one (a : F) : (a * (-(1 : F))) = (-a) := by
  ring

theorem law_inv_back (s f : F) (h0 : f ≠ (0 : F)) : ((s * ((1 : F) / f)) * f) = s := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_scale_l (a w x : F) : (a * (x * w)) = (x * (a * w)) := by
  ring

theorem law_pow_up (t x p : F) : (t * (x * p)) = (x * (t * p)) := by
  ring

theorem law_mul_right (t p x : F) : ((x * t) * p) = (x * (t * p)) := by
  ring

theorem law_mul_term (s a u b v z : F) : ((s + ((a * u) * z)) + ((a * b) * (u * v))) = (s + ((a * u) * (z + (b * v)))) := by
  ring

theorem law_mul_inv (s f : F) : (s * ((1 : F) / f)) = (s / f) := by
  ring

theorem law_pow_add (x : F) (n m : ℤ) (h0 : (n : ℤ) ≥ (0 : ℤ)) (h1 : (m : ℤ) ≥ (0 : ℤ)) : (x ^ (n + m : ℤ)) = ((x ^ (n : ℤ)) * (x ^ (m : ℤ))) := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0; obtain ⟨l, rfl⟩ := Int.eq_ofNat_of_zero_le h1; exact_mod_cast (pow_add x k l)

theorem law_mul4 (a b c d : F) : ((a * b) * (c * d)) = ((a * c) * (b * d)) := by
  ring

theorem law_mul_terms (s e a b u v z : F) : (((s * z) + ((a * u) * e)) + ((a * b) * (u * v))) = ((s * z) + ((a * u) * (e + (b * v)))) := by
  ring

theorem law_distr_r (a b c : F) : ((a + b) * c) = ((a * c) + (b * c)) := by
  ring

theorem law_ofint_neg (n : ℤ) : ((-n : ℤ) : F) = (-((n : ℤ) : F)) := by
  push_cast; ring

theorem law_cf_back (a r d : F) (h0 : r ≠ a) (h1 : d ≠ (0 : F)) : (a + (d / (d / (r - a)))) = r := by
  have h2 : r - a ≠ 0 := sub_ne_zero.mpr h0; field_simp; ring

theorem law_neg_add (t y : F) : ((-t) + y) = (y - t) := by
  ring

theorem law_frac_step (a u e d : F) (h0 : u ≠ (0 : F)) (h1 : d ≠ (0 : F)) : (((a * u) + (e * d)) / u) = (a + (e / (u / d))) := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_newton_back (a r d : F) (h0 : d ≠ (0 : F)) : (a + (d * ((r - a) / d))) = r := by
  first | (field_simp; done) | (field_simp; ring)

theorem law_three (a u d t y : F) : (((a * u) + (y * d)) + (d * (-t))) = ((a * u) + ((y - t) * d)) := by
  ring

theorem law_three_ (a u d t y : F) : (((a * u) + (d * (-t))) + (y * d)) = ((a * u) + ((y - t) * d)) := by
  ring

theorem law_newton_step (q y t : F) : ((q * (-t)) + (y * q)) = ((y - t) * q) := by
  ring
