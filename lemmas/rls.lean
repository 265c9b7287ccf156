/- C06: the recursion proved for FilterRLS by the contracts is recursive least squares.
   The step below is, letter by letter, the specification `spec()` of contracts/c06.py. -/
import Mathlib.LinearAlgebra.Matrix.PosDef
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.Positivity

open Matrix
set_option linter.all false
set_option linter.unusedSectionVars false

variable {n : Type} [Fintype n] [DecidableEq n]
variable (mu eps : ℝ) (x : ℕ → n → ℝ) (d : ℕ → ℝ) (w0 : n → ℝ)

/-- the matrix R of the filter after k samples -/
noncomputable def R : ℕ → Matrix n n ℝ
  | 0 => fun i j => eps⁻¹ * (if i = j then 1 else 0)
  | k + 1 => fun i j =>
      (R k i j - (R k *ᵥ x k) i * (x k ᵥ* R k) j / (mu + x k ⬝ᵥ (R k *ᵥ x k))) / mu

/-- the weights after k samples -/
noncomputable def w : ℕ → n → ℝ
  | 0 => w0
  | k + 1 => fun i => w k i + (d k - w k ⬝ᵥ x k) * (R mu eps x (k + 1) *ᵥ x k) i

/-- the exponentially weighted correlation matrix with its initial term -/
noncomputable def Phi : ℕ → Matrix n n ℝ
  | 0 => eps • (1 : Matrix n n ℝ)
  | k + 1 => mu • Phi k + vecMulVec (x k) (x k)

/-- the weighted least-squares cost after k samples -/
noncomputable def cost (k : ℕ) (v : n → ℝ) : ℝ :=
  (∑ i ∈ Finset.range k, mu ^ (k - 1 - i) * (d i - v ⬝ᵥ x i) ^ 2) + mu ^ k * eps * ((v - w0) ⬝ᵥ (v - w0))

variable {mu eps}

theorem phi_sym (k : ℕ) : (Phi mu eps x k)ᵀ = Phi mu eps x k := by
  induction k with
  | zero => simp [Phi]
  | succ k ih =>
    rw [Phi, transpose_add, transpose_smul, ih]
    congr 1
    ext i j
    simp [vecMulVec_apply, mul_comm]

theorem phi_quad (hmu : 0 < mu) (heps : 0 < eps) (k : ℕ) (v : n → ℝ) (hv : v ≠ 0) :
    0 < v ⬝ᵥ (Phi mu eps x k *ᵥ v) := by
  induction k with
  | zero =>
    have : 0 < v ⬝ᵥ v := by
      rcases Function.ne_iff.mp hv with ⟨i, hi⟩
      apply Finset.sum_pos'
      · intro j _; exact mul_self_nonneg _
      · exact ⟨i, Finset.mem_univ i, mul_self_pos.mpr hi⟩
    simp only [Phi, smul_mulVec, one_mulVec, dotProduct_smul, smul_eq_mul]
    exact mul_pos heps this
  | succ k ih =>
    have h : vecMulVec (x k) (x k) *ᵥ v = (x k ⬝ᵥ v) • x k := by
      ext i
      simp [vecMulVec, mulVec, dotProduct, Finset.sum_mul]
      apply Finset.sum_congr rfl; intro j _; ring
    rw [Phi, add_mulVec, smul_mulVec, h, dotProduct_add, dotProduct_smul, dotProduct_smul]
    have h2 : v ⬝ᵥ x k = x k ⬝ᵥ v := dotProduct_comm _ _
    simp only [smul_eq_mul, h2]
    have := mul_pos hmu ih
    nlinarith [mul_self_nonneg (x k ⬝ᵥ v)]

/-- one step: if R is the inverse of Phi, the updated R is the inverse of the updated Phi (Sherman-Morrison) -/
theorem inverse (hmu : 0 < mu) (heps : 0 < eps) (k : ℕ) :
    R mu eps x k * Phi mu eps x k = 1 ∧ (R mu eps x k)ᵀ = R mu eps x k := by
  induction k with
  | zero =>
    constructor
    · have : R mu eps x 0 = eps⁻¹ • (1 : Matrix n n ℝ) := by
        ext i j; simp [R, Matrix.one_apply]
      rw [this, Phi]
      simp [smul_smul, mul_inv_cancel₀ heps.ne']
    · ext i j; rw [Matrix.transpose_apply]; simp [R, eq_comm]
  | succ k ih =>
    obtain ⟨hinv, hsym⟩ := ih
    set r := R mu eps x k with hr
    set p := Phi mu eps x k with hp
    set s := r *ᵥ x k with hs
    have hrow : x k ᵥ* r = s := by
      rw [hs, ← vecMul_transpose, hsym]
    have hpr : p * r = 1 := mul_eq_one_comm.mp hinv
    have hps : p *ᵥ s = x k := by rw [hs, mulVec_mulVec, hpr, one_mulVec]
    set q := x k ⬝ᵥ s with hq
    have hq0 : 0 ≤ q := by
      by_cases h : s = 0
      · simp [hq, h]
      · have := phi_quad x hmu heps k s h
        rw [← hp, hps] at this
        rw [hq, dotProduct_comm]; exact this.le
    have hden : 0 < mu + q := by linarith
    have hR : R mu eps x (k + 1) = mu⁻¹ • (r - (mu + q)⁻¹ • vecMulVec s s) := by
      ext i j
      simp only [R, ← hr, ← hs, hrow, ← hq, Matrix.smul_apply, Matrix.sub_apply, vecMulVec_apply, smul_eq_mul]
      field_simp
    have hsp : s ᵥ* p = x k := by
      have : pᵀ = p := phi_sym x k
      rw [← mulVec_transpose, this, hps]
    constructor
    · have e1 : r * vecMulVec (x k) (x k) = vecMulVec s (x k) := by
        rw [mul_vecMulVec]
      have e2 : vecMulVec s s * p = vecMulVec s (x k) := by
        rw [vecMulVec_mul, hsp]
      have e3 : vecMulVec s s * vecMulVec (x k) (x k) = q • vecMulVec s (x k) := by
        rw [vecMulVec_mul_vecMulVec, hq, dotProduct_comm (x k) s]
        ext i j; simp [vecMulVec_apply]; ring
      rw [hR, Phi, ← hp]
      rw [Matrix.smul_mul, Matrix.sub_mul, Matrix.smul_mul, Matrix.mul_add, Matrix.mul_add, Matrix.mul_smul, Matrix.mul_smul, hinv, e1, e2, e3]
      ext i j
      simp only [Matrix.smul_apply, Matrix.sub_apply, Matrix.add_apply, smul_eq_mul]
      field_simp
      ring
    · rw [hR, transpose_smul, transpose_sub, transpose_smul, hsym]
      congr 3
      ext i j; simp [vecMulVec_apply, mul_comm]

/-- the divisor of every step is positive -/
theorem divisor_pos (hmu : 0 < mu) (heps : 0 < eps) (k : ℕ) :
    0 < mu + x k ⬝ᵥ (R mu eps x k *ᵥ x k) := by
  obtain ⟨hinv, _⟩ := inverse x hmu heps k
  have hpr : Phi mu eps x k * R mu eps x k = 1 := mul_eq_one_comm.mp hinv
  set s := R mu eps x k *ᵥ x k with hs
  have hps : Phi mu eps x k *ᵥ s = x k := by rw [hs, mulVec_mulVec, hpr, one_mulVec]
  by_cases h : s = 0
  · simp [h, hmu]
  · have := phi_quad x hmu heps k s h
    rw [hps, dotProduct_comm] at this
    linarith

/-- R is positive definite -/
theorem R_pos (hmu : 0 < mu) (heps : 0 < eps) (k : ℕ) (v : n → ℝ) (hv : v ≠ 0) :
    0 < v ⬝ᵥ (R mu eps x k *ᵥ v) := by
  obtain ⟨hinv, _⟩ := inverse x hmu heps k
  have hpr : Phi mu eps x k * R mu eps x k = 1 := mul_eq_one_comm.mp hinv
  set s := R mu eps x k *ᵥ v with hs
  have hps : Phi mu eps x k *ᵥ s = v := by rw [hs, mulVec_mulVec, hpr, one_mulVec]
  have h : s ≠ 0 := by
    intro h; apply hv; rw [← hps, h, mulVec_zero]
  have := phi_quad x hmu heps k s h
  rwa [hps, dotProduct_comm] at this

theorem cost_succ (k : ℕ) (v : n → ℝ) :
    cost mu eps x d w0 (k + 1) v = mu * cost mu eps x d w0 k v + (d k - v ⬝ᵥ x k) ^ 2 := by
  unfold cost
  rw [Finset.sum_range_succ]
  have : ∑ i ∈ Finset.range k, mu ^ (k + 1 - 1 - i) * (d i - v ⬝ᵥ x i) ^ 2
       = mu * ∑ i ∈ Finset.range k, mu ^ (k - 1 - i) * (d i - v ⬝ᵥ x i) ^ 2 := by
    rw [Finset.mul_sum]
    apply Finset.sum_congr rfl
    intro i hi
    have hi := Finset.mem_range.mp hi
    have : k + 1 - 1 - i = (k - 1 - i) + 1 := by omega
    rw [this, pow_succ]; ring
  rw [this]
  simp
  ring

/-- completing the square: the cost is minimal at the weights of the filter -/
theorem cost_square (hmu : 0 < mu) (heps : 0 < eps) (k : ℕ) (v : n → ℝ) :
    cost mu eps x d w0 k v = cost mu eps x d w0 k (w mu eps x d w0 k)
      + (v - w mu eps x d w0 k) ⬝ᵥ (Phi mu eps x k *ᵥ (v - w mu eps x d w0 k)) := by
  induction k generalizing v with
  | zero => simp [cost, w, Phi, smul_mulVec]
  | succ k ih =>
    have hpr : Phi mu eps x (k+1) * R mu eps x (k+1) = 1 := mul_eq_one_comm.mp (inverse x hmu heps (k+1)).1
    have hw : w mu eps x d w0 (k+1) = w mu eps x d w0 k
        + (d k - w mu eps x d w0 k ⬝ᵥ x k) • (R mu eps x (k+1) *ᵥ x k) := by
      ext i; simp [w]
    set W := w mu eps x d w0 k with hW
    set W' := w mu eps x d w0 (k+1) with hW'
    set e := d k - W ⬝ᵥ x k with he
    have hP : Phi mu eps x (k+1) = mu • Phi mu eps x k + vecMulVec (x k) (x k) := rfl
    have hvm : ∀ a : n → ℝ, vecMulVec (x k) (x k) *ᵥ a = (x k ⬝ᵥ a) • x k := by
      intro a; ext i
      simp [vecMulVec, mulVec, dotProduct, Finset.sum_mul]
      apply Finset.sum_congr rfl; intro j _; ring
    have hu : Phi mu eps x (k+1) *ᵥ (W' - W) = e • x k := by
      rw [hw, add_sub_cancel_left, mulVec_smul, mulVec_mulVec, hpr, one_mulVec]
    have key : ∀ a : n → ℝ, (a - W') ⬝ᵥ (Phi mu eps x (k+1) *ᵥ (a - W'))
        = mu * ((a - W) ⬝ᵥ (Phi mu eps x k *ᵥ (a - W))) + ((a - W) ⬝ᵥ x k) ^ 2
          - 2 * e * ((a - W) ⬝ᵥ x k) + e * ((W' - W) ⬝ᵥ x k) := by
      intro a
      have hs : a - W' = (a - W) - (W' - W) := by abel
      have hsym : (W' - W) ⬝ᵥ (Phi mu eps x (k+1) *ᵥ (a - W)) = (a - W) ⬝ᵥ (e • x k) := by
        rw [← hu, dotProduct_mulVec, ← mulVec_transpose, phi_sym, dotProduct_comm]
      rw [hs, mulVec_sub, hu, sub_dotProduct, dotProduct_sub, dotProduct_sub, hsym, hP, add_mulVec, smul_mulVec, hvm,
        dotProduct_add, dotProduct_smul, dotProduct_smul, dotProduct_smul, dotProduct_smul]
      simp only [smul_eq_mul, dotProduct_comm (x k) (a - W)]
      ring
    have hd : ∀ a : n → ℝ, d k - a ⬝ᵥ x k = e - (a - W) ⬝ᵥ x k := by
      intro a; rw [he, sub_dotProduct]; ring
    rw [cost_succ, cost_succ, ih v, ih W', key v, hd v, hd W']
    have h0 := key W'
    rw [sub_self, zero_dotProduct] at h0
    linear_combination h0

/-- after every number of samples the weights are the unique minimiser -/
theorem unique_minimiser (hmu : 0 < mu) (heps : 0 < eps) (k : ℕ) (v : n → ℝ) (hv : v ≠ w mu eps x d w0 k) :
    cost mu eps x d w0 k (w mu eps x d w0 k) < cost mu eps x d w0 k v := by
  have := phi_quad x hmu heps k (v - w mu eps x d w0 k) (sub_ne_zero.mpr hv)
  rw [cost_square x d w0 hmu heps k v]
  linarith

