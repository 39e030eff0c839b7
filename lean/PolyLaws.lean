import Mathlib.Tactic
import Mathlib.Algebra.Polynomial.Reverse
import Mathlib.Algebra.Polynomial.Div
import Mathlib.Algebra.Polynomial.Degree.Lemmas
/-! Facts about polynomials over an arbitrary field which theories/polylaws.mlw states (same names, same order). -/
open Polynomial
variable {F : Type*} [Field F]
noncomputable section

/-- coefficient, indexed by an integer -/
def coefp (a : F[X]) (i : ℤ) : F := if i < 0 then 0 else a.coeff i.toNat
/-- sum_{j<m} a_j b_{i-j} -/
def csum (a b : F[X]) (i : ℤ) (m : ℕ) : F := ∑ j ∈ Finset.range m, coefp a j * coefp b (i - j)
def degle (a : F[X]) (n : ℤ) : Prop := ∀ i : ℤ, n < i → coefp a i = 0

theorem coefp_nat (a : F[X]) (n : ℕ) : coefp a n = a.coeff n := by simp [coefp]
theorem coef_neg (a : F[X]) (i : ℤ) (h : i < 0) : coefp a i = 0 := by simp [coefp, h]
/-- the polynomial with these coefficients -/
def tp (s : List F) : F[X] := ∑ j ∈ Finset.range s.length, monomial j (s.getD j 0)
theorem coef_tp (s : List F) (i : ℤ) : coefp (tp s) i = if 0 ≤ i ∧ i < s.length then s.getD i.toNat 0 else 0 := by
  by_cases h : i < 0
  · have : ¬ (0 ≤ i ∧ i < s.length) := by omega
    simp [coefp, h, this]
  · obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
    rw [coefp_nat]
    simp only [tp, finsetSum_coeff, coeff_monomial, Finset.sum_ite_eq', Finset.mem_range]
    simp
theorem pol_ext (a b : F[X]) (h : ∀ i : ℤ, 0 ≤ i → coefp a i = coefp b i) : a = b := by
  ext n; simpa [coefp_nat] using h n (by positivity)
theorem coef_add (a b : F[X]) (i : ℤ) : coefp (a + b) i = coefp a i + coefp b i := by
  unfold coefp; split <;> simp
theorem coef_sub (a b : F[X]) (i : ℤ) : coefp (a - b) i = coefp a i - coefp b i := by
  unfold coefp; split <;> simp
theorem coef_scale (a : F[X]) (c : F) (i : ℤ) : coefp (C c * a) i = coefp a i * c := by
  unfold coefp; split <;> simp [mul_comm]
theorem coef_mul (a b : F[X]) (i : ℤ) (h : 0 ≤ i) : coefp (a * b) i = csum a b i (i + 1).toNat := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have e : ((n : ℤ) + 1).toNat = n + 1 := by omega
  rw [coefp_nat, coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ (fun i j => a.coeff i * b.coeff j), csum, e]
  apply Finset.sum_congr rfl
  intro j hj
  have : j ≤ n := by simpa [Nat.lt_succ_iff] using hj
  have e2 : (n : ℤ) - j = ((n - j : ℕ) : ℤ) := by omega
  rw [e2, coefp_nat, coefp_nat]
theorem csum_zero (a b : F[X]) (i : ℤ) : csum a b i 0 = 0 := by simp [csum]
theorem csum_step (a b : F[X]) (i : ℤ) (m : ℕ) : csum a b i (m + 1) = csum a b i m + coefp a m * coefp b (i - m) := by
  simp [csum, Finset.sum_range_succ]
theorem degle_nat (a : F[X]) (n : ℕ) : degle a n ↔ a.natDegree ≤ n := by
  rw [natDegree_le_iff_coeff_eq_zero]
  constructor
  · intro h k hk; simpa [coefp_nat] using h k (by exact_mod_cast hk)
  · intro h i hi
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
    rw [coefp_nat]; exact h k (by exact_mod_cast hi)
theorem deg_mul (a b : F[X]) (n m : ℤ) (hn : 0 ≤ n) (hm : 0 ≤ m) (ha : degle a n) (hb : degle b m) : degle (a * b) (n + m) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hm
  rw [degle_nat] at ha hb
  have : ((n : ℤ) + (m : ℤ)) = ((n + m : ℕ) : ℤ) := by push_cast; ring
  rw [this, degle_nat]
  exact natDegree_mul_le.trans (by omega)

/-- the first l coefficients of a are those of 1 -/
def isone (a : F[X]) (l : ℤ) : Prop := ∀ i : ℤ, 0 ≤ i → i < l → coefp a i = if i = 0 then 1 else 0
def agree (a b : F[X]) (l : ℤ) : Prop := ∀ i : ℤ, 0 ≤ i → i < l → coefp a i = coefp b i

theorem agree_dvd (a b : F[X]) (l : ℕ) : agree a b l ↔ X ^ l ∣ a - b := by
  rw [X_pow_dvd_iff]
  constructor
  · intro h d hd
    have := h d (by positivity) (by exact_mod_cast hd)
    rw [coefp_nat, coefp_nat] at this
    simp [this]
  · intro h i h0 hl
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    have := h k (by exact_mod_cast hl)
    rw [coefp_nat, coefp_nat]
    simpa [sub_eq_zero] using this
theorem isone_agree (a : F[X]) (l : ℤ) : isone a l ↔ agree a 1 l := by
  unfold isone agree
  have : ∀ i : ℤ, 0 ≤ i → coefp (1 : F[X]) i = if i = 0 then 1 else 0 := by
    intro i h
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
    rw [coefp_nat, coeff_one]; norm_cast
  constructor
  · intro h i h0 hl; rw [h i h0 hl, this i h0]
  · intro h i h0 hl; rw [h i h0 hl, this i h0]

/-- Newton's iteration doubles the precision of the inverse -/
theorem newton (f g h : F[X]) (l : ℤ) (hl : 1 ≤ l) (h1 : isone (f * g) l)
    (h2 : agree h (C 2 * g - g * g * f) (2 * l)) : isone (f * h) (2 * l) := by
  lift l to ℕ using (by omega) with k
  have e : 2 * (k : ℤ) = ((k + k : ℕ) : ℤ) := by push_cast; ring
  rw [isone_agree, e, agree_dvd]
  rw [isone_agree, agree_dvd] at h1
  rw [e, agree_dvd] at h2
  obtain ⟨u, hu⟩ := h1
  obtain ⟨v, hv⟩ := h2
  refine ⟨f * v - u * u, ?_⟩
  have c2 : (C (2 : F) : F[X]) = 2 := map_ofNat C 2
  rw [c2] at hv
  have p : (X : F[X]) ^ (k + k) = X ^ k * X ^ k := pow_add _ _ _
  rw [p] at hv ⊢
  linear_combination f * hv + (1 - f * g - X ^ k * u) * hu

/-- Euclidean division through the reversed polynomials -/
theorem division (a b f g r s q : F[X]) (n m : ℤ) (hn : 0 ≤ n) (hm : 0 ≤ m) (ha : degle a (n + m)) (hb : degle b n)
    (hf : ∀ i : ℤ, 0 ≤ i → coefp f i = coefp b (n - i)) (hr : ∀ i : ℤ, 0 ≤ i → coefp r i = coefp a (n + m - i))
    (h1 : isone (f * g) (m + 1)) (hs : agree s (r * g) (m + 1)) (hq : ∀ i : ℤ, 0 ≤ i → coefp q i = coefp s (m - i)) :
    degle (a - b * q) (n - 1) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le hm
  have enm : (n : ℤ) + (m : ℤ) = ((n + m : ℕ) : ℤ) := by push_cast; ring
  have em : (m : ℤ) + 1 = ((m + 1 : ℕ) : ℤ) := by push_cast; ring
  have hqd : degle q m := by
    intro i hi
    rw [hq i (by omega), coef_neg]; omega
  have rfl_of : ∀ (u v : F[X]) (k : ℕ), degle u k → (∀ i : ℤ, 0 ≤ i → coefp v i = coefp u (k - i)) → v = reflect k u := by
    intro u v k hu h
    ext i
    have := h i (by positivity)
    rw [coefp_nat] at this
    rw [this, coeff_reflect]
    by_cases hi : i ≤ k
    · rw [revAt_le hi]
      have : (k : ℤ) - i = ((k - i : ℕ) : ℤ) := by omega
      rw [this, coefp_nat]
    · have hi' : k < i := by omega
      rw [coef_neg _ _ (by omega)]
      rw [show revAt k i = i from revAt_eq_self_of_lt hi']
      rw [degle_nat] at hu
      exact (coeff_eq_zero_of_natDegree_lt (by omega)).symm
  have hf' : f = reflect n b := rfl_of b f n hb hf
  rw [enm] at ha hr
  have hr' : r = reflect (n + m) a := rfl_of a r (n + m) ha (by simpa using hr)
  have hqn : q.natDegree ≤ m := (degle_nat q m).1 hqd
  have hbn : b.natDegree ≤ n := (degle_nat b n).1 hb
  have hS : agree (reflect m q) s (m + 1) := by
    intro i h0 hi
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    have hk : k ≤ m := by omega
    rw [coefp_nat, coeff_reflect, revAt_le hk, ← coefp_nat, hq _ (by positivity)]
    congr 1; omega
  rw [em] at h1 hs hS
  rw [isone_agree] at h1
  rw [agree_dvd] at h1 hs hS
  have key : X ^ (m + 1) ∣ reflect (n + m) (a - b * q) := by
    have : reflect (n + m) (a - b * q) = r - f * reflect m q := by
      rw [hr', hf', ← reflect_mul b q hbn hqn]
      ext i; simp [coeff_reflect]
    rw [this]
    obtain ⟨u, hu⟩ := h1
    obtain ⟨v, hv⟩ := hs
    obtain ⟨w, hw⟩ := hS
    refine ⟨-(f * w) - f * v - r * u, ?_⟩
    linear_combination (-f) * hw - f * hv - r * hu
  intro i hi
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ i by omega)
  rw [coefp_nat]
  by_cases hk : k ≤ n + m
  · rw [X_pow_dvd_iff] at key
    have := key (n + m - k) (by omega)
    rw [coeff_reflect, revAt_le (by omega)] at this
    rwa [show n + m - (n + m - k) = k by omega] at this
  · have : degle (b * q) (n + m) := deg_mul b q n m (by omega) (by omega) hb hqd
    rw [coeff_sub]
    rw [enm, degle_nat] at this
    rw [degle_nat] at ha
    rw [coeff_eq_zero_of_natDegree_lt (by omega : a.natDegree < k), coeff_eq_zero_of_natDegree_lt (by omega : (b * q).natDegree < k), sub_zero]

theorem scale_out (b q : F[X]) (c : F) : (C c * b) * q = b * (C c * q) := by ring
theorem mul_comm_ (a b : F[X]) : a * b = b * a := mul_comm a b
theorem add_sub_ (a x : F[X]) : x + (a - x) = a := by ring
theorem mul_one_ (a b : F[X]) (h : isone b 1) (h2 : degle b 0) : a * b = a := by
  have : b = 1 := by
    apply pol_ext
    intro i hi
    by_cases e : i = 0
    · rw [h i hi (by omega), e]; simp [coefp]
    · rw [h2 i (by omega)]
      obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le hi
      rw [coefp_nat, coeff_one, if_neg]; exact_mod_cast e
  rw [this, mul_one]
theorem mul_zero_ (a b : F[X]) (i : ℤ) (h : ∀ j : ℤ, 0 ≤ j → coefp a j = 0) : coefp (a * b) i = 0 := by
  have : a = 0 := pol_ext a 0 (fun i hi => by rw [h i hi]; simp [coefp])
  rw [this]; simp [coefp]
theorem dvd_self (a : F[X]) : a ∣ a := dvd_rfl
theorem dvd_zero_ (a b : F[X]) (h : ∀ i : ℤ, 0 ≤ i → coefp b i = 0) : a ∣ b := by
  have : b = 0 := pol_ext b 0 (fun i hi => by rw [h i hi]; simp [coefp])
  rw [this]; exact dvd_zero a
theorem dvd_comb (p a b q r : F[X]) (h : a = q * b + r) (h1 : p ∣ b) (h2 : p ∣ r) : p ∣ a := by
  rw [h]; exact dvd_add (dvd_mul_of_dvd_right h1 q) h2
def comb (a c d : F[X]) : Prop := ∃ u v, a = u * c + v * d
theorem comb_left (c d : F[X]) : comb c c d := ⟨1, 0, by ring⟩
theorem comb_right (c d : F[X]) : comb d c d := ⟨0, 1, by ring⟩
theorem comb_rem (a b q r c d : F[X]) (h : a = q * b + r) (h1 : comb a c d) (h2 : comb b c d) : comb r c d := by
  obtain ⟨u, v, e⟩ := h1
  obtain ⟨w, x, f⟩ := h2
  refine ⟨u - q * w, v - q * x, ?_⟩
  have : r = a - q * b := by rw [h]; ring
  rw [this, e, f]; ring
end
