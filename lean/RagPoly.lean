import Mathlib
/-! Facts about coefficient lists that contracts/poly.py and contracts/tarski.py use as axioms.
    A coefficient list is a function with a length; the definitions below are those of the contracts. -/
open Polynomial Finset
noncomputable section
namespace RAG
/-- value at x: sum of p_i x^i (EV) -/
def ev (p : List ℝ) (x : ℝ) : ℝ := ∑ i ∈ range p.length, p.getD i 0 * x ^ i
/-- k-th entry of the convolution (CONV) -/
def conv (p q : List ℝ) (k : ℕ) : ℝ := ∑ i ∈ range p.length, if i ≤ k ∧ k - i < q.length then p.getD i 0 * q.getD (k - i) 0 else 0
/-- the product (MUL): as many entries as the lengths say, each from the convolution -/
def IsMul (m p q : List ℝ) : Prop := m.length = p.length + q.length - 1 ∧ ∀ k < m.length, m.getD k 0 = conv p q k
def lastc (p : List ℝ) : ℝ := p.getD (p.length - 1) 0
def Tnz (p : List ℝ) : Prop := 1 ≤ p.length ∧ lastc p ≠ 0
/-- the polynomial with these coefficients -/
def pol (p : List ℝ) : ℝ[X] := ∑ i ∈ range p.length, C (p.getD i 0) * X ^ i

theorem getD_ge {p : List ℝ} {k : ℕ} (h : p.length ≤ k) : p.getD k 0 = 0 := by
  simp [List.getD, List.getElem?_eq_none h]
theorem pol_coeff (p : List ℝ) (k : ℕ) : (pol p).coeff k = p.getD k 0 := by
  unfold pol
  simp only [finsetSum_coeff, coeff_C_mul, coeff_X_pow, mul_ite, mul_one, mul_zero]
  rw [Finset.sum_ite_eq]
  split_ifs with h
  · rfl
  · simp only [mem_range, not_lt] at h; exact (getD_ge h).symm
theorem ev_eq (p : List ℝ) (x : ℝ) : ev p x = (pol p).eval x := by
  simp [ev, pol, eval_finsetSum]
theorem conv_eq (p q : List ℝ) (k : ℕ) : conv p q k = (pol p * pol q).coeff k := by
  rw [coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk]
  simp only [pol_coeff]
  unfold conv
  have h1 : ∀ i, (if i ≤ k ∧ k - i < q.length then p.getD i 0 * q.getD (k - i) 0 else 0) = if i ≤ k then p.getD i 0 * q.getD (k - i) 0 else 0 := by
    intro i
    by_cases h : i ≤ k
    · by_cases h2 : k - i < q.length
      · simp [h, h2]
      · have := getD_ge (p := q) (not_lt.mp h2); simp only [h, h2, and_false, if_false, if_true, this, mul_zero]
    · simp [h]
  simp only [h1]
  rw [← Finset.sum_filter]
  have e1 : ∑ a ∈ range p.length with a ≤ k, p.getD a 0 * q.getD (k - a) 0 = ∑ a ∈ (range (max p.length (k+1))).filter (· ≤ k), p.getD a 0 * q.getD (k - a) 0 := by
    apply Finset.sum_subset
    · intro a; simp only [mem_filter, mem_range]; intro h; exact ⟨lt_of_lt_of_le h.1 (le_max_left _ _), h.2⟩
    · intro a h1 h2; simp only [mem_filter, mem_range] at h1 h2
      have : p.length ≤ a := by by_contra h; exact h2 ⟨by omega, h1.2⟩
      rw [getD_ge this]; ring
  rw [e1]
  apply Finset.sum_congr _ (fun _ _ => rfl)
  ext a; simp only [mem_filter, mem_range]; constructor
  · intro h; omega
  · intro h; exact ⟨lt_of_lt_of_le h (le_max_right _ _), by omega⟩
theorem pol_natDegree_lt (p : List ℝ) (h : 1 ≤ p.length) : (pol p).natDegree < p.length := by
  rw [Nat.lt_iff_le_pred (by omega)]
  apply natDegree_le_iff_coeff_eq_zero.mpr
  intro N hN; rw [pol_coeff]; exact getD_ge (by omega)
theorem pol_nil {p : List ℝ} (h : p.length = 0) : pol p = 0 := by simp [pol, h]
theorem pol_mul {m p q : List ℝ} (h : IsMul m p q) : pol m = pol p * pol q := by
  ext k
  rw [pol_coeff]
  by_cases hk : k < m.length
  · rw [h.2 k hk, conv_eq]
  · rw [getD_ge (not_lt.mp hk)]
    have hl := h.1
    by_cases hp : p.length = 0
    · simp [pol_nil hp]
    by_cases hq : q.length = 0
    · simp [pol_nil hq]
    symm; apply coeff_eq_zero_of_natDegree_lt
    have a := pol_natDegree_lt p (by omega); have b := pol_natDegree_lt q (by omega)
    have c := natDegree_mul_le (p := pol p) (q := pol q)
    omega
/-- lem_ev_mul -/
theorem ev_mul {m p q : List ℝ} (h : IsMul m p q) (x : ℝ) : ev m x = ev p x * ev q x := by
  rw [ev_eq, ev_eq, ev_eq, pol_mul h, eval_mul]
theorem pol_lead {p : List ℝ} (h : Tnz p) : (pol p).natDegree = p.length - 1 ∧ (pol p).leadingCoeff = lastc p := by
  have h1 : (pol p).natDegree = p.length - 1 := by
    apply natDegree_eq_of_le_of_coeff_ne_zero
    · have := pol_natDegree_lt p h.1; omega
    · rw [pol_coeff]; exact h.2
  exact ⟨h1, by rw [leadingCoeff, h1, pol_coeff]; rfl⟩
/-- lem_tnz_mul -/
theorem tnz_mul {m p q : List ℝ} (h : IsMul m p q) (hp : Tnz p) (hq : Tnz q) : lastc m ≠ 0 := by
  have a := pol_lead hp; have b := pol_lead hq
  have hm : m.length - 1 = (p.length - 1) + (q.length - 1) := by have := h.1; have := hp.1; have := hq.1; omega
  unfold lastc
  rw [← pol_coeff, pol_mul h, hm, ← a.1, ← b.1, coeff_mul_degree_add_degree, a.2, b.2]
  exact mul_ne_zero hp.2 hq.2
/-- derivative of a list (DER) -/
def IsDer (d p : List ℝ) : Prop := d.length = p.length - 1 ∧ ∀ k < d.length, d.getD k 0 = p.getD (k+1) 0 * ((k:ℝ)+1)
theorem pol_der {d p : List ℝ} (h : IsDer d p) : pol d = derivative (pol p) := by
  ext k
  rw [coeff_derivative, pol_coeff, pol_coeff]
  by_cases hk : k < d.length
  · exact h.2 k hk
  · rw [getD_ge (not_lt.mp hk), getD_ge (by have := h.1; omega)]; simp

/-! signed remainders -/
/-- SR f g r : r is congruent modulo g to a positive multiple of f -/
def SR (f g r : List ℝ) : Prop := ∃ c : ℝ, 0 < c ∧ ∃ Q : ℝ[X], C c * pol f = Q * pol g + pol r
/-- coefficient, zero outside the list (coefZ) -/
def cz (p : List ℝ) (k : ℤ) : ℝ := if 0 ≤ k ∧ k < p.length then p.getD k.toNat 0 else 0
theorem cz_nat (p : List ℝ) (k : ℕ) : cz p k = (pol p).coeff k := by
  rw [pol_coeff]; unfold cz
  by_cases h : k < p.length
  · simp [h]
  · rw [getD_ge (not_lt.mp h)]; simp [h]
theorem cz_neg (p : List ℝ) {k : ℤ} (h : k < 0) : cz p k = 0 := by
  unfold cz; simp; intro h2; omega
/-- lm_sr, base -/
theorem sr_base (f g r : List ℝ) (h : ∀ w : ℤ, cz f w = cz r w) : SR f g r := by
  refine ⟨1, one_pos, 0, ?_⟩
  simp only [map_one, one_mul, zero_mul, zero_add]
  ext k; have := h k; rwa [cz_nat, cz_nat] at this
/-- lm_sr, step without subtraction -/
theorem sr_step0 (f g r h : List ℝ) (a : ℝ) (ha : 0 < a) (hs : SR h g r) (e : ∀ w : ℤ, cz h w = a * cz f w) : SR f g r := by
  obtain ⟨c, hc, Q, hQ⟩ := hs
  refine ⟨c * a, mul_pos hc ha, Q, ?_⟩
  rw [← hQ, C_mul, mul_assoc]; congr 1
  ext k; rw [coeff_C_mul, ← cz_nat, ← cz_nat, e]
/-- lm_sr, step -/
theorem sr_step (f g r h : List ℝ) (a b : ℝ) (d : ℕ) (ha : 0 < a) (hs : SR h g r) (e : ∀ w : ℤ, cz h w = a * cz f w - b * cz g (w - d)) : SR f g r := by
  obtain ⟨c, hc, Q, hQ⟩ := hs
  have hh : pol h = C a * pol f - C b * (pol g * X ^ d) := by
    ext k
    rw [coeff_sub, coeff_C_mul, coeff_C_mul, coeff_mul_X_pow', ← cz_nat, e, ← cz_nat]
    congr 2
    split_ifs with hk
    · rw [← cz_nat]; congr 1; push_cast [Nat.cast_sub hk]; rfl
    · apply cz_neg; omega
  refine ⟨c * a, mul_pos hc ha, Q + C c * C b * X ^ d, ?_⟩
  have : C (c * a) * pol f = C c * pol h + C c * C b * X ^ d * pol g := by rw [hh, C_mul]; ring
  rw [this, hQ]; ring
end RAG
#print axioms RAG.ev_mul
#print axioms RAG.tnz_mul
#print axioms RAG.pol_der
#print axioms RAG.sr_base
#print axioms RAG.sr_step0
#print axioms RAG.sr_step
