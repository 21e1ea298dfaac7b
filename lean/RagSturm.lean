import Mathlib
import RagPoly
import RagSigns
import RagCounts
/-! The Cauchy index of q/p on the real line, signed remainder chains and Tarski queries (contracts/tarski.py). -/
open Polynomial Finset
noncomputable section
namespace RAG
theorem sign_neginf' (p : ℝ[X]) (hp : p ≠ 0) : ∀ᶠ y in Filter.atBot, SignType.sign (p.eval y) = SignType.sign (p.leadingCoeff * (-1) ^ p.natDegree) := by
  have h : ∀ᶠ y in Filter.atBot, (SignType.sign (p.eval y) : ℤ) = SignType.sign (p.leadingCoeff * (-1) ^ p.natDegree) := sign_neginf p hp
  filter_upwards [h] with y hy
  revert hy; generalize SignType.sign (p.eval y) = a; generalize SignType.sign (p.leadingCoeff * (-1) ^ p.natDegree) = b
  revert a b; decide
theorem sgn_pos {x : ℝ} (h : 0 < x) : sgn x = 1 := by simp [sgn, sign_pos h]
theorem sgn_neg {x : ℝ} (h : x < 0) : sgn x = -1 := by simp [sgn, sign_neg h]
theorem sgn_zero : sgn 0 = 0 := by simp [sgn]
theorem sgn_negate (x : ℝ) : sgn (-x) = - sgn x := by
  rcases lt_trichotomy x 0 with h | h | h
  · rw [sgn_neg h, sgn_pos (neg_pos.mpr h)]; rfl
  · rw [h, neg_zero, sgn_zero]; rfl
  · rw [sgn_pos h, sgn_neg (neg_neg_of_pos h)]
theorem sgn_sq {x : ℝ} (h : x ≠ 0) : sgn x * sgn x = 1 := by
  rcases lt_or_gt_of_ne h with h | h
  · rw [sgn_neg h]; rfl
  · rw [sgn_pos h]; rfl
theorem sgn_pow_neg {x : ℝ} (h : x < 0) (m : ℕ) : sgn (x ^ m) = (-1) ^ m := by
  induction m with
  | zero => simp [sgn]
  | succ m ih => rw [pow_succ, sgn_mul, ih, sgn_neg h, pow_succ]
/-- f vanishes at x to the order m and l is the first coefficient that does not vanish -/
def Low (f : ℝ[X]) (x : ℝ) (m : ℕ) (l : ℝ) : Prop := l ≠ 0 ∧ ∃ f1 : ℝ[X], f = (X - C x) ^ m * f1 ∧ f1.eval x = l
theorem low_exists {f : ℝ[X]} (hf : f ≠ 0) (x : ℝ) : ∃ m l, Low f x m l := by
  obtain ⟨g, h1, h2⟩ := exists_eq_pow_rootMultiplicity_mul_and_not_dvd f hf x
  exact ⟨_, _, fun h0 => h2 (dvd_iff_isRoot.mpr h0), g, h1, rfl⟩
theorem low_unique {f : ℝ[X]} {x : ℝ} {m n : ℕ} {l k : ℝ} (h : Low f x m l) (h2 : Low f x n k) : m = n ∧ l = k := by
  have key : ∀ m n l k, Low f x m l → Low f x n k → m ≤ n → m = n ∧ l = k := by
    rintro m n l k ⟨hl, f1, e1, rfl⟩ ⟨hk, f2, e2, rfl⟩ hmn
    have hX : (X - C x : ℝ[X]) ^ m ≠ 0 := pow_ne_zero _ (X_sub_C_ne_zero x)
    obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le hmn
    rw [e1, pow_add, mul_assoc] at e2
    have e3 := mul_left_cancel₀ hX e2
    cases d with
    | zero => simp at e3; exact ⟨rfl, by rw [e3]⟩
    | succ d => exfalso; apply hl; rw [e3]; simp [pow_succ]
  rcases le_total m n with g | g
  · exact key m n l k h h2 g
  · have := key n m k l h2 h g; exact ⟨this.1.symm, this.2.symm⟩
theorem low_mul {f g : ℝ[X]} {x : ℝ} {m n : ℕ} {l k : ℝ} (h : Low f x m l) (h2 : Low g x n k) : Low (f * g) x (m + n) (l * k) := by
  obtain ⟨hl, f1, e1, r1⟩ := h; obtain ⟨hk, f2, e2, r2⟩ := h2
  exact ⟨mul_ne_zero hl hk, f1 * f2, by rw [e1, e2, pow_add]; ring, by rw [eval_mul, r1, r2]⟩
theorem low_C {c : ℝ} (hc : c ≠ 0) (x : ℝ) : Low (C c) x 0 c := ⟨hc, C c, by simp, by simp⟩
theorem low_ne {f : ℝ[X]} {x : ℝ} {m : ℕ} {l : ℝ} (h : Low f x m l) : f ≠ 0 := by
  rintro rfl; obtain ⟨hl, f1, e1, r1⟩ := h
  have : f1 = 0 := by
    rcases mul_eq_zero.mp e1.symm with g | g
    · exact absurd g (pow_ne_zero _ (X_sub_C_ne_zero x))
    · exact g
  rw [this] at r1; simp at r1; exact hl r1.symm
theorem low_root {f : ℝ[X]} {x : ℝ} {m : ℕ} {l : ℝ} (h : Low f x m l) : f.eval x = 0 ↔ 1 ≤ m := by
  obtain ⟨hl, f1, e1, r1⟩ := h
  rw [e1]; cases m with
  | zero => simp [r1, hl]
  | succ m => simp [pow_succ]
theorem low_eval {f : ℝ[X]} {x : ℝ} {l : ℝ} (h : Low f x 0 l) : f.eval x = l := by
  obtain ⟨hl, f1, e1, r1⟩ := h; rw [e1]; simpa using r1
theorem low_add {f g : ℝ[X]} {x : ℝ} {m n : ℕ} {l k : ℝ} (h : Low f x m l) (h2 : Low g x n k) (hmn : m < n) : Low (f + g) x m l := by
  obtain ⟨hl, f1, e1, r1⟩ := h; obtain ⟨hk, f2, e2, r2⟩ := h2
  obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_lt hmn
  exact ⟨hl, f1 + (X - C x) ^ (d + 1) * f2, by rw [e1, e2]; ring, by simp [r1]⟩
open Classical in
def lowm (f : ℝ[X]) (x : ℝ) : ℕ := if h : f ≠ 0 then (low_exists h x).choose else 0
open Classical in
def lowl (f : ℝ[X]) (x : ℝ) : ℝ := if h : f ≠ 0 then (low_exists h x).choose_spec.choose else 0
theorem low_eq {f : ℝ[X]} {x : ℝ} {m : ℕ} {l : ℝ} (h : Low f x m l) : lowm f x = m ∧ lowl f x = l := by
  have hf := low_ne h
  have : Low f x (lowm f x) (lowl f x) := by
    unfold lowm lowl; rw [dif_pos hf, dif_pos hf]; exact (low_exists hf x).choose_spec.choose_spec
  exact low_unique this h
open Classical in
/-- jump of q/p at x: 1 from minus to plus infinity, -1 the other way round -/
def jump (p q : ℝ[X]) (x : ℝ) : ℤ :=
  if p ≠ 0 ∧ q ≠ 0 ∧ lowm q x < lowm p x ∧ (lowm p x + lowm q x) % 2 = 1 then sgn (lowl p x * lowl q x) else 0
theorem jump_low {p q : ℝ[X]} {x : ℝ} {m n : ℕ} {l k : ℝ} (hp : Low p x m l) (hq : Low q x n k) :
    jump p q x = if n < m ∧ (m + n) % 2 = 1 then sgn (l * k) else 0 := by
  unfold jump; rw [(low_eq hp).1, (low_eq hp).2, (low_eq hq).1, (low_eq hq).2]
  simp only [low_ne hp, low_ne hq, ne_eq, not_false_iff, true_and]
theorem jump_zero (p : ℝ[X]) (x : ℝ) : jump p 0 x = 0 := by unfold jump; rw [if_neg]; simp
/-- the Cauchy index (CIX) -/
def cix (p q : ℝ[X]) : ℤ := ∑ x ∈ p.roots.toFinset, jump p q x
/-- a positive multiple and a polynomial summand change no jump -/
theorem jump_mod {p q r Q : ℝ[X]} {c : ℝ} (hc : 0 < c) (hp : p ≠ 0) (h : C c * q = Q * p + r) (x : ℝ) : jump p q x = jump p r x := by
  obtain ⟨m, l, hpl⟩ := low_exists hp x
  have hcl := low_C hc.ne' x
  by_cases hq : q = 0
  · rw [hq, jump_zero]
    by_cases hr : r = 0
    · rw [hr, jump_zero]
    have hQ : Q ≠ 0 := by rintro rfl; rw [hq] at h; simp at h; exact hr h.symm
    obtain ⟨a, b, hQl⟩ := low_exists hQ x
    have e : r = C (-1) * (Q * p) := by rw [hq] at h; simp at h ⊢; linear_combination -h
    have := low_mul (low_C (show (-1:ℝ) ≠ 0 by norm_num) x) (low_mul hQl hpl)
    rw [← e] at this; rw [jump_low hpl this, if_neg]; omega
  obtain ⟨n, k, hql⟩ := low_exists hq x
  have hcq := low_mul hcl hql
  rw [zero_add] at hcq
  by_cases hr : r = 0
  · rw [hr, jump_zero, jump_low hpl hql, if_neg]
    have hQ : Q ≠ 0 := by rintro rfl; rw [hr] at h; simp at h; rcases h with g | g; exact hc.ne' g; exact hq g
    obtain ⟨a, b, hQl⟩ := low_exists hQ x
    rw [hr, add_zero] at h; rw [h] at hcq
    have := low_unique hcq (low_mul hQl hpl); omega
  obtain ⟨n', k', hrl⟩ := low_exists hr x
  by_cases hQ : Q = 0
  · rw [hQ, zero_mul, zero_add] at h; rw [h] at hcq
    have := low_unique hcq hrl
    rw [jump_low hpl hql, jump_low hpl hrl, ← this.1, ← this.2]
    have : l * (c * k) = c * (l * k) := by ring
    rw [this, sgn_mul c (l * k), sgn_pos hc, one_mul]
  obtain ⟨a, b, hQl⟩ := low_exists hQ x
  have hQp := low_mul hQl hpl
  by_cases hnm : n < m
  · -- the remainder behaves like c * q
    have e : r = C c * q + C (-1) * (Q * p) := by simp; linear_combination -h
    have hneg := low_mul (low_C (show (-1:ℝ) ≠ 0 by norm_num) x) hQp
    have := low_add hcq hneg (by omega)
    rw [← e] at this
    have u := low_unique this hrl
    rw [jump_low hpl hql, jump_low hpl hrl, ← u.1, ← u.2]
    have : l * (c * k) = c * (l * k) := by ring
    rw [this, sgn_mul c (l * k), sgn_pos hc, one_mul]
  · rw [jump_low hpl hql, if_neg (by omega), jump_low hpl hrl, if_neg]
    intro hh
    have : Low (C c * q) x n' k' := by rw [h, add_comm]; exact low_add hrl hQp (by omega)
    have := low_unique hcq this; omega
theorem cix_mod {p q r Q : ℝ[X]} {c : ℝ} (hc : 0 < c) (hp : p ≠ 0) (h : C c * q = Q * p + r) : cix p q = cix p r :=
  Finset.sum_congr rfl (fun x _ => jump_mod hc hp h x)
theorem jump_neg (p q : ℝ[X]) (x : ℝ) : jump p (-q) x = - jump p q x := by
  by_cases hp : p = 0
  · subst hp; simp [jump]
  by_cases hq : q = 0
  · subst hq; simp [jump_zero]
  obtain ⟨m, l, hpl⟩ := low_exists hp x
  obtain ⟨n, k, hql⟩ := low_exists hq x
  have := low_mul (low_C (show (-1:ℝ) ≠ 0 by norm_num) x) hql
  have e : C (-1) * q = -q := by simp
  rw [e, zero_add] at this
  rw [jump_low hpl hql, jump_low hpl this]
  have e2 : l * (-1 * k) = -(l * k) := by ring
  split_ifs with g
  · rw [e2, sgn_negate]
  · rfl
theorem cix_neg (p q : ℝ[X]) : cix p (-q) = - cix p q := by
  unfold cix; rw [← Finset.sum_neg_distrib]; exact Finset.sum_congr rfl (fun x _ => jump_neg p q x)
/-- sign at plus and at minus infinity -/
def sp (f : ℝ[X]) : ℤ := sgn f.leadingCoeff
def sm (f : ℝ[X]) : ℤ := sgn (f.leadingCoeff * (-1) ^ f.natDegree)
theorem sm_eq (f : ℝ[X]) : sm f = (-1) ^ f.natDegree * sp f := by
  unfold sm sp; rw [sgn_mul, sgn_pow_neg (by norm_num)]; ring
theorem sp_mul (f g : ℝ[X]) : sp (f * g) = sp f * sp g := by unfold sp; rw [leadingCoeff_mul, sgn_mul]
/-- sign change of f at x: half of the sign to the right minus the sign to the left -/
def turn (f : ℝ[X]) (x : ℝ) : ℤ := if lowm f x % 2 = 1 then sgn (lowl f x) else 0
theorem turn_low {f : ℝ[X]} {x : ℝ} {m : ℕ} {l : ℝ} (h : Low f x m l) : turn f x = if m % 2 = 1 then sgn l else 0 := by
  unfold turn; rw [(low_eq h).1, (low_eq h).2]
theorem sum_turn_nil (f : ℝ[X]) (hf : f ≠ 0) (h : ∀ y, f.eval y ≠ 0) : sm f = sp f := by
  obtain ⟨a, ha⟩ := (sign_neginf' f hf).exists
  obtain ⟨b, hb⟩ := (sign_posinf f hf).exists
  have := sign_const (p := f) (a := a) (b := b) (fun y _ => h y)
  unfold sm sp sgn; rw [← ha, ← hb, this]
theorem sum_turn (n : ℕ) : ∀ f : ℝ[X], f ≠ 0 → f.roots.toFinset.card = n → 2 * ∑ x ∈ f.roots.toFinset, turn f x = sp f - sm f := by
  induction n with
  | zero =>
    intro f hf h
    rw [Finset.card_eq_zero] at h
    rw [sum_turn_nil f hf, h]; simp
    intro y hy
    have : y ∈ f.roots.toFinset := by rw [Multiset.mem_toFinset, mem_roots hf]; exact hy
    rw [h] at this; simp at this
  | succ n ih =>
    intro f hf h
    have hne : f.roots.toFinset.Nonempty := by rw [← Finset.card_pos]; omega
    obtain ⟨a, ha, hmax⟩ := f.roots.toFinset.exists_max_image id hne
    simp only [id] at hmax
    have mem : ∀ g : ℝ[X], g ≠ 0 → ∀ y, y ∈ g.roots.toFinset ↔ g.eval y = 0 := by
      intro g hg y; rw [Multiset.mem_toFinset, mem_roots hg]; rfl
    obtain ⟨m, l, hl⟩ := low_exists hf a
    obtain ⟨hl0, g, e, r⟩ := id hl
    have hg : g ≠ 0 := by rintro rfl; simp at r; exact hl0 r.symm
    have hroots : f.roots.toFinset = insert a g.roots.toFinset := by
      ext y; rw [mem f hf, Finset.mem_insert, mem g hg, e]
      have hm : 1 ≤ m := (low_root hl).mp ((mem f hf a).mp ha)
      simp only [eval_mul, eval_pow, eval_sub, eval_X, eval_C, mul_eq_zero, pow_eq_zero_iff (by omega : m ≠ 0), sub_eq_zero]
    have hag : a ∉ g.roots.toFinset := by rw [mem g hg, r]; exact hl0
    have hcard : g.roots.toFinset.card = n := by rw [hroots, Finset.card_insert_of_notMem hag] at h; omega
    have IH := ih g hg hcard
    rw [hroots, Finset.sum_insert hag, turn_low hl]
    have hlt : ∀ y ∈ g.roots.toFinset, y < a := by
      intro y hy
      have h1 : y ∈ f.roots.toFinset := by rw [hroots]; exact Finset.mem_insert_of_mem hy
      exact lt_of_le_of_ne (hmax y h1) (by rintro rfl; exact hag hy)
    have hsum : ∑ x ∈ g.roots.toFinset, turn f x = (-1) ^ m * ∑ x ∈ g.roots.toFinset, turn g x := by
      rw [Finset.mul_sum]
      apply Finset.sum_congr rfl
      intro y hy
      obtain ⟨k, b, hb⟩ := low_exists hg y
      have hya := hlt y hy
      have h0 : Low ((X - C a) ^ m) y 0 ((y - a) ^ m) := ⟨pow_ne_zero _ (sub_ne_zero.mpr hya.ne), (X - C a) ^ m, by simp, by simp⟩
      have h1 := low_mul h0 hb
      rw [← e, zero_add] at h1
      rw [turn_low h1, turn_low hb, sgn_mul, sgn_pow_neg (by linarith)]
      split_ifs <;> ring
    rw [hsum]
    -- the sign of g at its right end
    have hga : sgn l = sp g := by
      obtain ⟨b, hb⟩ := ((sign_posinf g hg).and (Filter.eventually_ge_atTop a)).exists
      unfold sp sgn; rw [← hb.1, ← r]; congr 1
      apply sign_const
      intro w hw h0
      rw [Set.uIcc_of_le hb.2] at hw
      have := hlt w ((mem g hg w).mpr h0); linarith [hw.1]
    have hX : sp ((X - C a : ℝ[X]) ^ m) = 1 := by
      unfold sp; rw [((monic_X_sub_C a).pow m).leadingCoeff]; exact sgn_pos one_pos
    have spf : sp f = sp g := by rw [e, sp_mul, hX, one_mul]
    have degf : f.natDegree = m + g.natDegree := by
      rw [e, natDegree_mul (pow_ne_zero _ (X_sub_C_ne_zero a)) hg, natDegree_pow, natDegree_X_sub_C, mul_one]
    rw [sm_eq g] at IH
    rw [sm_eq f, spf, degf, pow_add, hga]
    rcases Nat.mod_two_eq_zero_or_one m with hm | hm
    · rw [hm]; simp only [zero_ne_one, if_false, (Nat.even_iff.mpr hm).neg_one_pow]; linear_combination IH
    · rw [hm]; simp only [if_true, (Nat.odd_iff.mpr hm).neg_one_pow]; linear_combination -IH
/-- inversion -/
theorem cix_inverse (p q : ℝ[X]) (hp : p ≠ 0) (hq : q ≠ 0) : 2 * (cix p q + cix q p) = sp (p * q) - sm (p * q) := by
  have hpq := mul_ne_zero hp hq
  rw [← sum_turn _ (p * q) hpq rfl]
  congr 1
  have ext : ∀ p q : ℝ[X], p ≠ 0 → q ≠ 0 → ∀ T : Finset ℝ, p.roots.toFinset ⊆ T → cix p q = ∑ x ∈ T, jump p q x := by
    intro p q hp hq T hT
    apply Finset.sum_subset hT
    intro x _ hx
    obtain ⟨m, l, hl⟩ := low_exists hp x
    obtain ⟨n, k, hk⟩ := low_exists hq x
    have : m = 0 := by
      by_contra hm
      exact hx (by rw [Multiset.mem_toFinset, mem_roots hp]; exact (low_root hl).mpr (by omega))
    rw [jump_low hl hk, if_neg (by omega)]
  have hr : (p * q).roots = p.roots + q.roots := roots_mul hpq
  rw [ext p q hp hq (p * q).roots.toFinset (by rw [hr]; intro x; simp; tauto), ext q p hq hp (p * q).roots.toFinset (by rw [hr]; intro x; simp; tauto), ← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro x _
  obtain ⟨m, l, hl⟩ := low_exists hp x
  obtain ⟨n, k, hk⟩ := low_exists hq x
  rw [jump_low hl hk, jump_low hk hl, turn_low (low_mul hl hk), mul_comm k l, add_comm n m]
  by_cases ho : (m + n) % 2 = 1
  · rcases lt_or_gt_of_ne (show m ≠ n by rintro rfl; omega) with g | g
    · rw [if_neg (by omega), if_pos ⟨g, ho⟩, if_pos ho, zero_add]
    · rw [if_pos ⟨g, ho⟩, if_neg (by omega), if_pos ho, add_zero]
  · rw [if_neg (by tauto), if_neg (by tauto), if_neg ho, add_zero]
/-- signed remainder chains of polynomials -/
inductive Chain : List ℝ[X] → ℝ[X] → ℝ[X] → Prop
  | base (p q Q : ℝ[X]) (c : ℝ) : 0 < c → C c * p = Q * q → Chain [p, q] p q
  | step (p q r Q : ℝ[X]) (c : ℝ) (s : List ℝ[X]) : 0 < c → C c * p = Q * q + r → Chain s q (-r) → Chain (p :: s) p q
/-- number of neighbours of different sign, for given signs -/
def vary (σ : ℝ[X] → ℤ) : List ℝ[X] → ℤ
  | p :: q :: t => (if σ p * σ q < 0 then 1 else 0) + vary σ (q :: t)
  | _ => 0
theorem chain_head {s p q} (h : Chain s p q) : ∃ t, s = p :: q :: t := by
  induction h with
  | base => exact ⟨[], rfl⟩
  | step p q r Q c s _ _ _ ih => obtain ⟨t, rfl⟩ := ih; exact ⟨_, rfl⟩
theorem sp_cases {f : ℝ[X]} (h : f ≠ 0) : sp f = 1 ∨ sp f = -1 := by
  rcases lt_or_gt_of_ne (leadingCoeff_ne_zero.mpr h) with g | g
  · right; exact sgn_neg g
  · left; exact sgn_pos g
theorem sm_mul {f g : ℝ[X]} (hf : f ≠ 0) (hg : g ≠ 0) : sm (f * g) = sm f * sm g := by
  rw [sm_eq, sm_eq, sm_eq, natDegree_mul hf hg, sp_mul, pow_add]; ring
theorem sm_cases {f : ℝ[X]} (h : f ≠ 0) : sm f = 1 ∨ sm f = -1 := by
  rw [sm_eq]; rcases neg_one_pow_eq_or ℤ f.natDegree with a | a <;> rcases sp_cases h with b | b <;> rw [a, b] <;> simp
theorem pair_var {p q : ℝ[X]} (hp : p ≠ 0) (hq : q ≠ 0) : 2 * ((if sm p * sm q < 0 then (1:ℤ) else 0) - (if sp p * sp q < 0 then 1 else 0)) = sp (p * q) - sm (p * q) := by
  rw [sp_mul, sm_mul hp hq]
  rcases sp_cases hp with a | a <;> rcases sp_cases hq with b | b <;> rcases sm_cases hp with c | c <;> rcases sm_cases hq with d | d <;> rw [a, b, c, d] <;> norm_num
/-- the sign variations of a chain at minus infinity minus those at plus infinity are the Cauchy index -/
theorem chain_index {s p q} (h : Chain s p q) (hs : ∀ f ∈ s, f ≠ 0) : vary sm s - vary sp s = cix p q := by
  induction h with
  | base p q Q c hc e =>
    have hp := hs p (by simp); have hq := hs q (by simp)
    have a := cix_inverse p q hp hq
    have b : cix q p = 0 := by
      rw [cix_mod hc hq (r := 0) (by rw [add_zero]; exact e)]
      unfold cix; simp [jump_zero]
    have d := pair_var hp hq
    simp only [vary]; rw [b] at a; linarith
  | step p q r Q c s hc e hch ih =>
    obtain ⟨t, rfl⟩ := chain_head hch
    have hp := hs p (by simp); have hq := hs q (by simp)
    have IH := ih (fun f hf => hs f (by simp at hf ⊢; tauto))
    have a := cix_inverse p q hp hq
    have b : cix q p = cix q r := cix_mod hc hq e
    have d := pair_var hp hq
    rw [cix_neg] at IH
    simp only [vary] at IH ⊢
    linarith
/-- the Tarski query: signs of q summed over the distinct real roots of p (TAQ) -/
def taq (p q : ℝ[X]) : ℤ := ∑ x ∈ p.roots.toFinset, sgn (q.eval x)
theorem low_der {p : ℝ[X]} {x : ℝ} {m : ℕ} {l : ℝ} (h : Low p x (m + 1) l) : Low (derivative p) x m ((m + 1 : ℝ) * l) := by
  obtain ⟨hl, f1, e1, r1⟩ := h
  refine ⟨mul_ne_zero (by positivity) hl, C (m + 1 : ℝ) * f1 + (X - C x) * derivative f1, ?_, by simp [r1]⟩
  rw [e1, derivative_mul, derivative_X_sub_C_pow]
  push_cast
  simp only [Nat.add_sub_cancel, C_add, C_1, map_natCast]
  ring
/-- the Cauchy index of p'q/p is the Tarski query -/
theorem cix_taq (p q : ℝ[X]) (hp : p ≠ 0) (hq : q ≠ 0) : cix p (derivative p * q) = taq p q := by
  apply Finset.sum_congr rfl
  intro x hx
  rw [Multiset.mem_toFinset, mem_roots hp] at hx
  obtain ⟨m, l, hl⟩ := low_exists hp x
  obtain ⟨n, k, hk⟩ := low_exists hq x
  have hm := (low_root hl).mp hx
  obtain ⟨m, rfl⟩ : ∃ j, m = j + 1 := ⟨m - 1, by omega⟩
  rw [jump_low hl (low_mul (low_der hl) hk)]
  rcases Nat.eq_zero_or_pos n with rfl | hn
  · rw [if_pos (by omega), low_eval hk]
    have e : l * ((m + 1 : ℝ) * l * k) = (m + 1 : ℝ) * (l * l * k) := by ring
    rw [e, sgn_mul, sgn_pos (by positivity), sgn_mul, sgn_mul, sgn_sq hl.1]; ring
  · rw [if_neg (by omega), (low_root hk).mpr hn, sgn_zero]
/-! The same for coefficient lists, with the definitions of the contracts. -/
/-- s is a signed remainder sequence that starts with p, q (ISRS, introduced as in lm_isrs) -/
inductive ISRS : List (List ℝ) → List ℝ → List ℝ → Prop
  | base (p q r : List ℝ) : SR p q r → r.length = 0 → ISRS [p, q] p q
  | step (p q r q2 : List ℝ) (s : List (List ℝ)) : SR p q r → 1 ≤ r.length → q2.length = r.length → (∀ k < r.length, q2.getD k 0 = - r.getD k 0) →
      ISRS s q q2 → ISRS (p :: s) p q
theorem isrs_head {s p q} (h : ISRS s p q) : ∃ t, s = p :: q :: t := by
  induction h with
  | base => exact ⟨[], rfl⟩
  | step p q r q2 s _ _ _ _ _ ih => obtain ⟨t, rfl⟩ := ih; exact ⟨_, rfl⟩
theorem isrs_len {s p q} (h : ISRS s p q) : 2 ≤ s.length ∧ s.getD 0 [] = p ∧ s.getD 1 [] = q := by
  obtain ⟨t, rfl⟩ := isrs_head h; simp
theorem pol_neg {q2 r : List ℝ} (hl : q2.length = r.length) (h : ∀ k < r.length, q2.getD k 0 = - r.getD k 0) : pol q2 = - pol r := by
  ext k; rw [coeff_neg, pol_coeff, pol_coeff]
  by_cases hk : k < r.length
  · exact h k hk
  · rw [getD_ge (by omega), getD_ge (by omega)]; simp
theorem isrs_chain {s p q} (h : ISRS s p q) : Chain (s.map pol) (pol p) (pol q) := by
  induction h with
  | base p q r hs hr =>
    obtain ⟨c, hc, Q, e⟩ := hs
    rw [pol_nil hr, add_zero] at e
    exact Chain.base _ _ Q c hc e
  | step p q r q2 s hs _ hl hn _ ih =>
    obtain ⟨c, hc, Q, e⟩ := hs
    rw [pol_neg hl hn] at ih
    exact Chain.step _ _ _ Q c _ hc e ih
/-- sign of the leading coefficient at minus infinity (neglead) -/
def neglead (p : List ℝ) : ℝ := if (p.length - 1) % 2 = 0 then lastc p else - lastc p
def VNEG (s : List (List ℝ)) (n : ℕ) : ℤ := ∑ i ∈ range n, if neglead (s.getD i []) * neglead (s.getD (i + 1) []) < 0 then 1 else 0
def VPOS (s : List (List ℝ)) (n : ℕ) : ℤ := ∑ i ∈ range n, if lastc (s.getD i []) * lastc (s.getD (i + 1) []) < 0 then 1 else 0
theorem sgn_neg_iff (x y : ℝ) : sgn x * sgn y < 0 ↔ x * y < 0 := by
  rw [← sgn_mul]
  rcases lt_trichotomy (x * y) 0 with h | h | h
  · rw [sgn_neg h]; simp [h]
  · rw [h, sgn_zero]; simp
  · rw [sgn_pos h]; simp [h.le]
theorem sp_lastc {p : List ℝ} (h : Tnz p) : sp (pol p) = sgn (lastc p) := by unfold sp; rw [(pol_lead h).2]
theorem sm_neglead {p : List ℝ} (h : Tnz p) : sm (pol p) = sgn (neglead p) := by
  rw [sm_eq, sp_lastc h, (pol_lead h).1]; unfold neglead
  rcases Nat.mod_two_eq_zero_or_one (p.length - 1) with g | g
  · rw [if_pos g, (Nat.even_iff.mpr g).neg_one_pow, one_mul]
  · rw [if_neg (by omega), (Nat.odd_iff.mpr g).neg_one_pow, sgn_negate]; ring
theorem vary_sum (σ : ℝ[X] → ℤ) (f : List ℝ → ℝ) : ∀ s : List (List ℝ), (∀ p ∈ s, σ (pol p) = sgn (f p)) →
    vary σ (s.map pol) = ∑ i ∈ range (s.length - 1), if f (s.getD i []) * f (s.getD (i + 1) []) < 0 then (1:ℤ) else 0 := by
  intro s; induction s with
  | nil => intro _; simp [vary]
  | cons p t ih =>
    intro h
    cases t with
    | nil => simp [vary]
    | cons q u =>
      have IH := ih (fun x hx => h x (List.mem_cons_of_mem _ hx))
      have e : (p :: q :: u).length - 1 = ((q :: u).length - 1) + 1 := by simp
      rw [e, Finset.sum_range_succ']
      simp only [List.map_cons, vary] at IH ⊢
      rw [IH, h p (by simp), h q (by simp)]
      simp only [sgn_neg_iff, List.getD_cons_succ, List.getD_cons_zero]
      ring
/-- the first fact of lem_cauchy -/
theorem cauchy_index_of_chain {s p q} (h : ISRS s p q) (ht : ∀ f ∈ s, Tnz f) : VNEG s (s.length - 1) - VPOS s (s.length - 1) = cix (pol p) (pol q) := by
  rw [← chain_index (isrs_chain h) (by
    intro f hf; obtain ⟨g, hg, rfl⟩ := List.mem_map.mp hf
    have := (pol_lead (ht g hg)).2
    intro h0; rw [h0] at this; simp at this; exact (ht g hg).2 this.symm)]
  rw [vary_sum sm neglead s (fun p hp => sm_neglead (ht p hp)), vary_sum sp lastc s (fun p hp => sp_lastc (ht p hp))]
  rfl
theorem tnz_pol {p : List ℝ} (h : Tnz p) : pol p ≠ 0 := by
  intro h0; have := (pol_lead h).2; rw [h0] at this; simp at this; exact h.2 this.symm
/-- the second fact of lem_cauchy -/
theorem cauchy_index_tarski {p q d m : List ℝ} (hp : Tnz p) (hq : Tnz q) (hd : IsDer d p) (hm : IsMul m d q) : cix (pol p) (pol m) = taq (pol p) (pol q) := by
  rw [pol_mul hm, pol_der hd]; exact cix_taq _ _ (tnz_pol hp) (tnz_pol hq)
end RAG
#print axioms RAG.cauchy_index_of_chain
#print axioms RAG.cauchy_index_tarski
