import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.LinearAlgebra.Matrix.Block
/-! Determinant facts used by theories/linalg.mlw (module Det): `det a n` is the determinant of the leading n x n block. -/
namespace LD
variable {F : Type*} [Field F]
noncomputable def det (a : ℕ → ℕ → F) (n : ℕ) : F := Matrix.det (Matrix.of fun (i j : Fin n) => a i j)

theorem det_ext (a b : ℕ → ℕ → F) (n : ℕ) (h : ∀ r c, r < n → c < n → a r c = b r c) : det a n = det b n := by
  unfold det; congr 1; ext i j; exact h i j i.2 j.2

theorem det_swap (a b : ℕ → ℕ → F) (i k n : ℕ) (hi : i < n) (hk : k < n) (hik : i ≠ k)
    (h1 : ∀ c, c < n → b i c = a k c) (h2 : ∀ c, c < n → b k c = a i c)
    (h3 : ∀ r c, r < n → c < n → r ≠ i → r ≠ k → b r c = a r c) : det b n = - det a n := by
  unfold det
  have e : (Matrix.of fun (r c : Fin n) => b r c) = (Matrix.of fun (r c : Fin n) => a r c).submatrix (Equiv.swap (⟨i, hi⟩ : Fin n) ⟨k, hk⟩) id := by
    ext r c
    simp only [Matrix.of_apply, Matrix.submatrix_apply, id]
    by_cases hri : r = ⟨i, hi⟩
    · subst hri; rw [Equiv.swap_apply_left]; exact h1 c c.2
    · by_cases hrk : r = ⟨k, hk⟩
      · subst hrk; rw [Equiv.swap_apply_right]; exact h2 c c.2
      · rw [Equiv.swap_apply_of_ne_of_ne hri hrk]
        exact h3 r c r.2 c.2 (fun h => hri (Fin.ext h)) (fun h => hrk (Fin.ext h))
  rw [e, Matrix.det_permute]
  rw [Equiv.Perm.sign_swap (by intro h; exact hik (congrArg Fin.val h))]
  simp

theorem det_axpy (a b : ℕ → ℕ → F) (i k n : ℕ) (l : F) (hi : i < n) (hk : k < n) (hik : i ≠ k)
    (h1 : ∀ c, c < n → b k c = a k c + l * a i c)
    (h3 : ∀ r c, r < n → c < n → r ≠ k → b r c = a r c) : det b n = det a n := by
  unfold det
  have e : (Matrix.of fun (r c : Fin n) => b r c) =
      Matrix.updateRow (Matrix.of fun (r c : Fin n) => a r c) ⟨k, hk⟩
        ((Matrix.of fun (r c : Fin n) => a r c) ⟨k, hk⟩ + l • (Matrix.of fun (r c : Fin n) => a r c) ⟨i, hi⟩) := by
    ext r c
    by_cases hrk : r = ⟨k, hk⟩
    · subst hrk; simp [Matrix.updateRow_self, h1 c c.2]
    · rw [Matrix.updateRow_ne hrk]; simp only [Matrix.of_apply]
      exact h3 r c r.2 c.2 (fun h => hrk (Fin.ext h))
  rw [e, Matrix.det_updateRow_add_smul_self]
  intro h; exact hik (congrArg Fin.val h).symm

/-- the product of the first n diagonal entries -/
def diag (a : ℕ → ℕ → F) : ℕ → F
  | 0 => 1
  | n + 1 => diag a n * a n n

theorem diag_prod (a : ℕ → ℕ → F) (n : ℕ) : diag a n = ∏ i : Fin n, a i i := by
  induction n with
  | zero => simp [diag]
  | succ n ih => rw [Fin.prod_univ_castSucc]; simp [diag, ih]

theorem det_upper (a : ℕ → ℕ → F) (n : ℕ) (h : ∀ r c, r < n → c < r → a r c = 0) : det a n = diag a n := by
  unfold det
  rw [Matrix.det_of_isUpperTriangular, diag_prod]
  · rfl
  · intro i j hij; exact h i j i.2 hij
end LD
