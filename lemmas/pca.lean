/- C17: scores that are projections of the samples on unit eigenvectors of their covariance matrix, for distinct eigenvalues,
   have those eigenvalues as sample variances and are mutually uncorrelated.
   `cov` is, letter by letter, the specification `cov` of contracts/c17.py. -/
import Mathlib.Data.Real.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Fin
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Algebra.Order.BigOperators.Ring.Finset
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp

open Finset
set_option linter.all false

variable (N p : ℕ)

/-- sample mean of feature a -/
noncomputable def mean {q : ℕ} (x : Fin N → Fin q → ℝ) (a : Fin q) : ℝ := (∑ k, x k a) / N

/-- sample covariance of features a and b -/
noncomputable def cov {q : ℕ} (x : Fin N → Fin q → ℝ) (a b : Fin q) : ℝ :=
  (∑ k, (x k a - mean N x a) * (x k b - mean N x b)) / (N - 1)

variable {N p}
variable (x : Fin N → Fin p → ℝ) (n : ℕ) (v : Fin n → Fin p → ℝ) (lam : Fin n → ℝ)

/-- the scores: projections of the samples on the directions v -/
noncomputable def score : Fin N → Fin n → ℝ := fun k j => ∑ a, x k a * v j a

theorem cov_sym (a b : Fin p) : cov N x a b = cov N x b a := by
  unfold cov
  congr 1
  exact Finset.sum_congr rfl (fun k _ => mul_comm _ _)

theorem mean_score (j : Fin n) : mean N (score x n v) j = ∑ a, mean N x a * v j a := by
  unfold mean score
  rw [Finset.sum_comm, Finset.sum_div]
  refine Finset.sum_congr rfl (fun a _ => ?_)
  rw [← Finset.sum_mul]
  ring

/-- the covariance of two scores is the quadratic form of their directions -/
theorem cov_score (i j : Fin n) :
    cov N (score x n v) i j = ∑ a, v i a * ∑ b, cov N x a b * v j b := by
  have h : ∀ k, score x n v k i - mean N (score x n v) i = ∑ a, (x k a - mean N x a) * v i a := by
    intro k
    rw [mean_score]
    unfold score
    rw [← Finset.sum_sub_distrib]
    exact Finset.sum_congr rfl (fun a _ => by ring)
  have h' : ∀ k, score x n v k j - mean N (score x n v) j = ∑ a, (x k a - mean N x a) * v j a := by
    intro k
    rw [mean_score]
    unfold score
    rw [← Finset.sum_sub_distrib]
    exact Finset.sum_congr rfl (fun a _ => by ring)
  unfold cov
  simp only [h, h']
  rw [Finset.sum_div]
  have e : ∀ k, (∑ a, (x k a - mean N x a) * v i a) * (∑ b, (x k b - mean N x b) * v j b) / ((N : ℝ) - 1)
      = ∑ a, ∑ b, v i a * ((x k a - mean N x a) * (x k b - mean N x b) / ((N : ℝ) - 1) * v j b) := by
    intro k
    rw [Finset.sum_mul_sum, Finset.sum_div]
    refine Finset.sum_congr rfl (fun a _ => ?_)
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl (fun b _ => by ring)
  simp only [e]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl (fun a _ => ?_)
  rw [Finset.sum_comm, Finset.mul_sum]
  refine Finset.sum_congr rfl (fun b _ => ?_)
  rw [Finset.sum_div, Finset.sum_mul, Finset.mul_sum]

variable (eig : ∀ j a, ∑ b, cov N x a b * v j b = lam j * v j a)

include eig in
/-- eigenvectors of distinct eigenvalues are orthogonal -/
theorem orthogonal (i j : Fin n) (h : lam i ≠ lam j) : ∑ a, v i a * v j a = 0 := by
  have e1 : ∑ a, v i a * ∑ b, cov N x a b * v j b = lam j * ∑ a, v i a * v j a := by
    rw [Finset.mul_sum]
    exact Finset.sum_congr rfl (fun a _ => by rw [eig]; ring)
  have e2 : ∑ a, v i a * ∑ b, cov N x a b * v j b = lam i * ∑ a, v i a * v j a := by
    have : ∑ a, v i a * ∑ b, cov N x a b * v j b = ∑ b, v j b * ∑ a, cov N x b a * v i a := by
      simp only [Finset.mul_sum]
      rw [Finset.sum_comm]
      refine Finset.sum_congr rfl (fun b _ => Finset.sum_congr rfl (fun a _ => ?_))
      rw [cov_sym x a b]
      ring
    rw [this, Finset.mul_sum]
    exact Finset.sum_congr rfl (fun a _ => by rw [eig]; ring)
  have e3 : (lam i - lam j) * ∑ a, v i a * v j a = 0 := by linarith
  exact (mul_eq_zero.mp e3).resolve_left (sub_ne_zero.mpr h)

include eig in
/-- the sample variance of column j is the j-th eigenvalue -/
theorem variance (j : Fin n) (unit : ∑ a, v j a * v j a = 1) :
    cov N (score x n v) j j = lam j := by
  rw [cov_score]
  have : ∑ a, v j a * ∑ b, cov N x a b * v j b = lam j * ∑ a, v j a * v j a := by
    rw [Finset.mul_sum]
    exact Finset.sum_congr rfl (fun a _ => by rw [eig]; ring)
  rw [this, unit, mul_one]

include eig in
/-- different columns are uncorrelated -/
theorem uncorrelated (i j : Fin n) (h : lam i ≠ lam j) :
    cov N (score x n v) i j = 0 := by
  rw [cov_score]
  have : ∑ a, v i a * ∑ b, cov N x a b * v j b = lam j * ∑ a, v i a * v j a := by
    rw [Finset.mul_sum]
    exact Finset.sum_congr rfl (fun a _ => by rw [eig]; ring)
  rw [this, orthogonal x n v lam eig i j h, mul_zero]
