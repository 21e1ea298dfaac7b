import Mathlib
/-! Sign matrices, Tarski queries of products and counts of sign vectors (contracts/dds.py ax_count, contracts/signmat.py). -/
open Finset Matrix
noncomputable section
namespace RAG
/-- the base matrix: entry (e, c) is s^e for the sign s coded c (0 codes 0, 1 codes 1, 2 codes -1) -/
def B (e c : ℕ) : ℚ := if e = 0 then 1 else if c = 0 then 0 else if c = 1 then 1 else if e = 1 then -1 else 1
theorem B_table : (B 0 0, B 0 1, B 0 2, B 1 0, B 1 1, B 1 2, B 2 0, B 2 1, B 2 2) = (1, 1, 1, 0, 1, -1, 0, 1, 1) := by simp [B]
/-- n-fold Kronecker power, by the leading base-3 digits -/
def kp : ℕ → ℕ → ℕ → ℚ
  | 0, _, _ => 1
  | n+1, j, i => B (j / 3^n) (i / 3^n) * kp n (j % 3^n) (i % 3^n)
def KP (n : ℕ) : Matrix (Fin (3^n)) (Fin (3^n)) ℚ := fun j i => kp n j i
/-- Kronecker product of two matrices of sizes a, b as index arithmetic has it: powers add up (x_tensor) -/
theorem kp_kron (a b : ℕ) : ∀ j i, j < 3^(a+b) → i < 3^(a+b) → kp (a+b) j i = kp a (j / 3^b) (i / 3^b) * kp b (j % 3^b) (i % 3^b) := by
  induction a with
  | zero =>
    intro j i hj hi
    rw [Nat.zero_add] at hj hi
    simp only [Nat.zero_add, kp, one_mul, Nat.mod_eq_of_lt hj, Nat.mod_eq_of_lt hi]
  | succ a ih =>
    intro j i _ _
    have e : a + 1 + b = (a + b) + 1 := by omega
    have p : (3:ℕ)^(a+b) = 3^b * 3^a := by rw [pow_add]; ring
    rw [e]
    simp only [kp]
    rw [ih _ _ (Nat.mod_lt _ (by positivity)) (Nat.mod_lt _ (by positivity))]
    rw [p, Nat.mod_mul_right_div_self, Nat.mod_mul_right_div_self, Nat.mod_mul_right_mod, Nat.mod_mul_right_mod, Nat.div_div_eq_div_mul, Nat.div_div_eq_div_mul]
    ring
/-- digit of a sign -/
def dig (s : ℤ) : ℕ := if s = 0 then 0 else if s = 1 then 1 else 2
def IsSign (s : ℤ) : Prop := s = 0 ∨ s = 1 ∨ s = -1
def code : List ℤ → ℕ
  | [] => 0
  | s :: t => dig s * 3 ^ t.length + code t
theorem dig_lt (s : ℤ) : dig s < 3 := by unfold dig; split_ifs <;> omega
theorem code_lt (l : List ℤ) : code l < 3 ^ l.length := by
  induction l with
  | nil => simp [code]
  | cons s t ih =>
    simp only [code, List.length_cons, pow_succ]
    have := dig_lt s
    have : dig s ≤ 2 := by omega
    nlinarith [Nat.mul_le_mul_right (3^t.length) this]
/-- the partial sums of the contracts (BASE) -/
theorem code_sum (l : List ℤ) : code l = ∑ i ∈ range l.length, dig (l.getD i 0) * 3 ^ (l.length - 1 - i) := by
  induction l with
  | nil => simp [code]
  | cons s t ih =>
    simp only [code, List.length_cons]
    rw [Finset.sum_range_succ']
    simp only [List.getD_cons_succ, List.getD_cons_zero, Nat.add_sub_cancel, Nat.sub_zero]
    rw [ih, add_comm]
    congr 1
    apply Finset.sum_congr rfl
    intro i hi
    simp only [mem_range] at hi
    congr 2; omega
theorem code_append (sg : List ℤ) (s : ℤ) : code (sg ++ [s]) = (∑ i ∈ range sg.length, dig (sg.getD i 0) * 3 ^ (sg.length + 1 - 1 - i)) + dig s := by
  rw [code_sum]
  simp only [List.length_append, List.length_cons, List.length_nil, zero_add]
  rw [Finset.sum_range_succ]
  congr 1
  · apply Finset.sum_congr rfl
    intro i hi
    simp only [mem_range] at hi
    rw [List.getD_append _ _ _ _ hi]
  · simp
theorem dig_inj {s t : ℤ} (hs : IsSign s) (ht : IsSign t) (h : dig s = dig t) : s = t := by
  rcases hs with rfl | rfl | rfl <;> rcases ht with rfl | rfl | rfl <;> simp [dig] at h ⊢
theorem code_inj (l m : List ℤ) (hl : ∀ s ∈ l, IsSign s) (hm : ∀ s ∈ m, IsSign s) (h : l.length = m.length) (hc : code l = code m) : l = m := by
  induction l generalizing m with
  | nil => symm; rw [← List.length_eq_zero_iff, ← h]; rfl
  | cons s t ih =>
    cases m with
    | nil => simp at h
    | cons s' t' =>
      simp only [List.length_cons, add_left_inj] at h
      simp only [code] at hc
      have a := code_lt t; have b := code_lt t'
      rw [h] at hc a
      have hp : 0 < 3 ^ t'.length := by positivity
      have d : dig s = dig s' := by
        have := congrArg (· / 3 ^ t'.length) hc
        simp only [mul_comm (dig _)] at this
        rwa [Nat.mul_add_div hp, Nat.mul_add_div hp, Nat.div_eq_of_lt a, Nat.div_eq_of_lt b] at this
      have e : code t = code t' := by rw [d] at hc; omega
      rw [dig_inj (hl s (by simp)) (hm s' (by simp)) d, ih t' (fun s hs => hl s (by simp [hs])) (fun s hs => hm s (by simp [hs])) h e]
/-- value at a point of the j-th product of powers (EVPROD), for the values of the polynomials there -/
def evprod : List ℝ → ℕ → ℝ
  | [], _ => 1
  | h :: t, j => if j < 3 ^ t.length then evprod t j else if j < 2 * 3 ^ t.length then h * evprod t (j - 3 ^ t.length) else h * h * evprod t (j - 2 * 3 ^ t.length)
def sgn (x : ℝ) : ℤ := SignType.sign x
theorem sgn_isSign (x : ℝ) : IsSign (sgn x) := by
  unfold sgn IsSign; rcases lt_trichotomy x 0 with h | h | h
  · simp [sign_neg h]
  · simp [h]
  · simp [sign_pos h]
theorem sgn_mul (x y : ℝ) : sgn (x * y) = sgn x * sgn y := by unfold sgn; rw [sign_mul]; simp
/-- the entry of the matrix is the sign of the product of powers -/
theorem kp_sign (v : List ℝ) : ∀ j < 3 ^ v.length, kp v.length j (code (v.map sgn)) = (sgn (evprod v j) : ℚ) := by
  induction v with
  | nil => intro j _; simp [kp, evprod, sgn]
  | cons h t ih =>
    intro j hj
    have hp : 0 < 3 ^ t.length := by positivity
    have hc : code ((h :: t).map sgn) = 3 ^ t.length * dig (sgn h) + code (t.map sgn) := by simp [code, mul_comm]
    have hcl : code (t.map sgn) < 3 ^ t.length := by simpa using code_lt (t.map sgn)
    simp only [List.length_cons, kp]
    rw [hc, Nat.mul_add_div hp, Nat.div_eq_of_lt hcl, Nat.mul_add_mod, Nat.mod_eq_of_lt hcl, add_zero, ih _ (Nat.mod_lt _ hp)]
    rw [List.length_cons, pow_succ] at hj
    have hB : ∀ e, e < 3 → B e (dig (sgn h)) = ((sgn h : ℚ)) ^ e := by
      intro e he
      rcases sgn_isSign h with g | g | g <;> rw [g] <;> interval_cases e <;> simp [B, dig]
    simp only [evprod]
    by_cases c1 : j < 3 ^ t.length
    · rw [if_pos c1, Nat.div_eq_of_lt c1, Nat.mod_eq_of_lt c1, hB 0 (by omega)]; simp
    · rw [if_neg c1]
      by_cases c2 : j < 2 * 3 ^ t.length
      · have e : j = 3 ^ t.length * 1 + (j - 3 ^ t.length) := by omega
        have l : j - 3 ^ t.length < 3 ^ t.length := by omega
        have d : j / 3 ^ t.length = 1 := by rw [e, Nat.mul_add_div hp, Nat.div_eq_of_lt l]
        have m : j % 3 ^ t.length = j - 3 ^ t.length := by conv_lhs => rw [e, Nat.mul_add_mod, Nat.mod_eq_of_lt l]
        rw [if_pos c2, d, m, hB 1 (by omega), sgn_mul]; push_cast; ring
      · have e : j = 3 ^ t.length * 2 + (j - 2 * 3 ^ t.length) := by omega
        have l : j - 2 * 3 ^ t.length < 3 ^ t.length := by omega
        have d : j / 3 ^ t.length = 2 := by rw [e, Nat.mul_add_div hp, Nat.div_eq_of_lt l]
        have m : j % 3 ^ t.length = j - 2 * 3 ^ t.length := by conv_lhs => rw [e, Nat.mul_add_mod, Nat.mod_eq_of_lt l]
        rw [if_neg c2, d, m, hB 2 (by omega), sgn_mul, sgn_mul]; push_cast; ring
/-- number of points where the values have the sign vector coded i (NCNT) -/
def ncnt (Z : Finset ℝ) (v : ℝ → List ℝ) (i : ℕ) : ℕ := (Z.filter (fun x => code ((v x).map sgn) = i)).card
/-- sum over the points of the sign of the j-th product (TAQP) -/
def taqp (Z : Finset ℝ) (v : ℝ → List ℝ) (j : ℕ) : ℤ := ∑ x ∈ Z, sgn (evprod (v x) j)
theorem taq_products (Z : Finset ℝ) (v : ℝ → List ℝ) (n : ℕ) (hv : ∀ x, (v x).length = n) :
    (KP n).mulVec (fun i : Fin (3^n) => (ncnt Z v i : ℚ)) = fun j : Fin (3^n) => (taqp Z v j : ℚ) := by
  funext j
  simp only [mulVec, dotProduct, KP, taqp, ncnt]
  have e : ∀ x, (sgn (evprod (v x) j) : ℚ) = ∑ i : Fin (3^n), if code ((v x).map sgn) = i then kp n j i else 0 := by
    intro x
    have hl : code ((v x).map sgn) < 3 ^ n := by have := code_lt ((v x).map sgn); rwa [List.length_map, hv x] at this
    rw [← kp_sign (v x) j (by rw [hv x]; exact j.2), hv x]
    rw [Finset.sum_eq_single ⟨_, hl⟩]
    · simp
    · intro b _ hb; rw [if_neg]; intro hc; apply hb; exact Fin.ext hc.symm
    · simp
  push_cast
  simp only [e]
  rw [Finset.sum_comm]
  apply Finset.sum_congr rfl
  intro i _
  rw [Finset.sum_ite, Finset.sum_const_zero, add_zero, Finset.sum_const, nsmul_eq_mul, mul_comm]
/-- sign_matrix_inverse: any left inverse of the matrix turns the vector of Tarski queries into the counts -/
theorem sign_matrix_inverse (Z : Finset ℝ) (v : ℝ → List ℝ) (n : ℕ) (hv : ∀ x, (v x).length = n) (S : Matrix (Fin (3^n)) (Fin (3^n)) ℚ) (hS : S * KP n = 1) :
    S.mulVec (fun j : Fin (3^n) => (taqp Z v j : ℚ)) = fun i : Fin (3^n) => (ncnt Z v i : ℚ) := by
  rw [← taq_products Z v n hv, Matrix.mulVec_mulVec, hS, Matrix.one_mulVec]
/-- the matrix has an inverse -/
def Bi (e c : ℕ) : ℚ := if e = 0 then (if c = 0 then 1 else if c = 1 then 0 else -1) else if e = 1 then (if c = 0 then 0 else 1/2) else (if c = 0 then 0 else if c = 1 then -1/2 else 1/2)
theorem Bi_B (e c : ℕ) (he : e < 3) (hc : c < 3) : ∑ d ∈ range 3, Bi e d * B d c = if e = c then 1 else 0 := by
  interval_cases e <;> interval_cases c <;> simp [Finset.sum_range_succ, Bi, B] <;> norm_num
def kpi : ℕ → ℕ → ℕ → ℚ
  | 0, _, _ => 1
  | n+1, j, i => Bi (j / 3^n) (i / 3^n) * kpi n (j % 3^n) (i % 3^n)
theorem sum_digits (n : ℕ) (f : ℕ → ℕ → ℚ) : ∑ i ∈ range (3^(n+1)), f (i / 3^n) (i % 3^n) = ∑ a ∈ range 3, ∑ b ∈ range (3^n), f a b := by
  have hp : 0 < 3 ^ n := by positivity
  rw [← Finset.sum_product']
  refine Finset.sum_nbij' (fun i => (i / 3^n, i % 3^n)) (fun ab => ab.1 * 3^n + ab.2) ?_ ?_ ?_ ?_ ?_
  · intro i hi; simp only [mem_range, mem_product] at *
    exact ⟨(Nat.div_lt_iff_lt_mul hp).mpr (by rw [pow_succ] at hi; linarith), Nat.mod_lt _ hp⟩
  · intro ab h; simp only [mem_range, mem_product] at *; rw [pow_succ]
    have : ab.1 ≤ 2 := by omega
    nlinarith [Nat.mul_le_mul_right (3^n) this]
  · intro i _; simp only; rw [mul_comm]; exact Nat.div_add_mod i (3^n)
  · intro ab h; simp only [mem_range, mem_product] at h
    ext
    · simp only; rw [mul_comm, Nat.mul_add_div hp, Nat.div_eq_of_lt h.2, add_zero]
    · simp only; rw [mul_comm, Nat.mul_add_mod, Nat.mod_eq_of_lt h.2]
  · intro i _; rfl
theorem kpi_kp (n : ℕ) : ∀ j < 3^n, ∀ k < 3^n, ∑ i ∈ range (3^n), kpi n j i * kp n i k = if j = k then 1 else 0 := by
  induction n with
  | zero => intro j hj k hk; simp at hj hk; simp [hj, hk, kpi, kp]
  | succ n ih =>
    intro j hj k hk
    have hp : 0 < 3 ^ n := by positivity
    have hj3 : j / 3^n < 3 := (Nat.div_lt_iff_lt_mul hp).mpr (by rw [pow_succ] at hj; linarith)
    have hk3 : k / 3^n < 3 := (Nat.div_lt_iff_lt_mul hp).mpr (by rw [pow_succ] at hk; linarith)
    simp only [kpi, kp]
    rw [sum_digits n (fun a b => Bi (j / 3^n) a * kpi n (j % 3^n) b * (B a (k / 3^n) * kp n b (k % 3^n)))]
    have : ∀ a b, Bi (j / 3^n) a * kpi n (j % 3^n) b * (B a (k / 3^n) * kp n b (k % 3^n)) = (Bi (j/3^n) a * B a (k/3^n)) * (kpi n (j % 3^n) b * kp n b (k % 3^n)) := by intros; ring
    simp only [this]
    rw [← Finset.sum_mul_sum, Bi_B _ _ hj3 hk3, ih _ (Nat.mod_lt _ hp) _ (Nat.mod_lt _ hp)]
    by_cases h : j = k
    · simp [h]
    · rw [if_neg h]
      by_cases h1 : j / 3^n = k / 3^n
      · have h2 : j % 3^n ≠ k % 3^n := by
          intro h2; apply h; rw [← Nat.div_add_mod j (3^n), ← Nat.div_add_mod k (3^n), h1, h2]
        simp [h1, h2]
      · simp [h1]
def KPI (n : ℕ) : Matrix (Fin (3^n)) (Fin (3^n)) ℚ := fun j i => kpi n j i
theorem KP_invertible (n : ℕ) : KPI n * KP n = 1 := by
  ext j k
  simp only [Matrix.mul_apply, KP, KPI, Matrix.one_apply]
  have := kpi_kp n j j.2 k k.2
  rw [Finset.sum_range] at this
  rw [this]; simp [Fin.ext_iff]
/-- count_unique: if the polynomials al have the signs sg at the point x of Z and not all of them at any other
    point of Z, the sign vectors sg, s are counted once for the sign s of the next polynomial at x and never else -/
theorem count_unique (Z : Finset ℝ) (al : ℝ → List ℝ) (q : ℝ → ℝ) (sg : List ℤ) (x : ℝ) (hx : x ∈ Z) (hsg : ∀ s ∈ sg, IsSign s)
    (hlen : ∀ y, (al y).length = sg.length) (hat : (al x).map sgn = sg) (hsep : ∀ y ∈ Z, y ≠ x → (al y).map sgn ≠ sg) (s : ℤ) (hs : IsSign s) :
    ncnt Z (fun y => al y ++ [q y]) (code (sg ++ [s])) = if sgn (q x) = s then 1 else 0 := by
  have key : ∀ y, code ((al y ++ [q y]).map sgn) = code (sg ++ [s]) ↔ (al y).map sgn = sg ∧ sgn (q y) = s := by
    intro y
    constructor
    · intro h
      have := code_inj _ _ (by intro t ht; simp only [List.mem_map] at ht; obtain ⟨z, _, rfl⟩ := ht; exact sgn_isSign z)
        (by intro t ht; simp only [List.mem_append, List.mem_singleton] at ht; rcases ht with g | rfl; exact hsg t g; exact hs) (by simp [hlen y]) h
      rw [List.map_append] at this
      have h2 := List.append_inj this (by simp [hlen y])
      exact ⟨h2.1, by simpa using h2.2⟩
    · rintro ⟨a, b⟩; rw [List.map_append, a]; simp [b]
  unfold ncnt
  by_cases h : sgn (q x) = s
  · rw [if_pos h, Finset.card_eq_one]
    refine ⟨x, ?_⟩
    ext y; simp only [mem_filter, mem_singleton, key]
    constructor
    · rintro ⟨hy, a, _⟩; by_contra hne; exact hsep y hy hne a
    · rintro rfl; exact ⟨hx, hat, h⟩
  · rw [if_neg h, Finset.card_eq_zero]
    ext y; simp only [mem_filter, key, Finset.notMem_empty, iff_false]
    rintro ⟨hy, a, b⟩
    by_cases hne : y = x
    · rw [hne] at b; exact h b
    · exact hsep y hy hne a
end RAG
#print axioms RAG.kp_kron
#print axioms RAG.code_sum
#print axioms RAG.code_append
#print axioms RAG.kp_sign
#print axioms RAG.taq_products
#print axioms RAG.sign_matrix_inverse
#print axioms RAG.KP_invertible
#print axioms RAG.count_unique
