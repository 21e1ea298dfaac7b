import Mathlib
/-! Signs of polynomials at numbers, just to the right of numbers and towards minus infinity; Thom's lemma;
    the test points of virtual term substitution (contracts/system.py ax_places, ax_sat; contracts/dds.py lem_thom). -/
open Polynomial Filter Topology Set
noncomputable section
namespace RAG
/-- places on the line -/
inductive Place | at_ (x : ℝ) | right (x : ℝ) | neginf
/-- the filter of neighbourhoods of a place -/
def Place.flt : Place → Filter ℝ
  | .at_ x => pure x
  | .right x => 𝓝[>] x
  | .neginf => atBot
/-- s is the sign of p at the place (VS) -/
def HasSign (p : ℝ[X]) (pt : Place) (s : ℤ) : Prop := ∀ᶠ y in pt.flt, (SignType.sign (p.eval y) : ℤ) = s
instance (pt : Place) : pt.flt.NeBot := by cases pt <;> simp [Place.flt] <;> infer_instance
theorem hasSign_unique {p : ℝ[X]} {pt : Place} {s t : ℤ} (h : HasSign p pt s) (h2 : HasSign p pt t) : s = t := by
  obtain ⟨y, a, b⟩ := (h.and h2).exists
  exact a.symm.trans b
theorem sign_at (p : ℝ[X]) (x : ℝ) : HasSign p (.at_ x) (SignType.sign (p.eval x)) := by simp [HasSign, Place.flt]
theorem no_root_right (p : ℝ[X]) (hp : p ≠ 0) (x : ℝ) : ∀ᶠ y in 𝓝[>] x, p.eval y ≠ 0 := by
  have hf : (p.rootSet ℝ).Finite := p.rootSet_finite ℝ
  have : ∀ᶠ y in 𝓝[≠] x, y ∉ p.rootSet ℝ := by
    have h2 : (p.rootSet ℝ \ {x}).Finite := hf.subset sdiff_subset
    have h3 : ∀ᶠ y in 𝓝 x, y ∉ (p.rootSet ℝ \ {x}) := h2.isClosed.isOpen_compl.mem_nhds (by simp)
    filter_upwards [nhdsWithin_le_nhds h3, self_mem_nhdsWithin] with y hy hy2
    intro hc; exact hy ⟨hc, hy2⟩
  have h4 := this.filter_mono (nhdsWithin_mono x (fun y (hy : x < y) => ne_of_gt hy))
  filter_upwards [h4] with y hy h0
  exact hy ((mem_rootSet_of_ne hp).mpr (by simpa using h0))
/-- a polynomial without a root in an interval keeps its sign there -/
theorem sign_const {p : ℝ[X]} {a b : ℝ} (h : ∀ y ∈ uIcc a b, p.eval y ≠ 0) : SignType.sign (p.eval a) = SignType.sign (p.eval b) := by
  have hc : ContinuousOn (fun y => p.eval y) (uIcc a b) := p.continuous.continuousOn
  by_contra hne
  have ha := h a left_mem_uIcc; have hb := h b right_mem_uIcc
  have h0 : (0:ℝ) ∈ uIcc (p.eval a) (p.eval b) := by
    rcases lt_or_gt_of_ne ha with h1 | h1 <;> rcases lt_or_gt_of_ne hb with h2 | h2
    · simp [sign_neg h1, sign_neg h2] at hne
    · exact mem_uIcc_of_le h1.le h2.le
    · exact mem_uIcc_of_ge h2.le h1.le
    · simp [sign_pos h1, sign_pos h2] at hne
  obtain ⟨y, hy, hy0⟩ := intermediate_value_uIcc hc h0
  exact h y hy hy0
theorem ev_right_exists {p : ℝ → Prop} {x : ℝ} (h : ∀ᶠ y in 𝓝[>] x, p y) : ∃ z, x < z ∧ ∀ y, x < y → y < z → p y := by
  obtain ⟨z, hz, hz2⟩ := (mem_nhdsGT_iff_exists_Ioo_subset).mp h
  exact ⟨z, hz, fun y h1 h2 => hz2 ⟨h1, h2⟩⟩
/-- every place has a sign -/
theorem sign_right_exists (p : ℝ[X]) (hp : p ≠ 0) (x : ℝ) : ∃ s : SignType, s ≠ 0 ∧ ∀ᶠ y in 𝓝[>] x, SignType.sign (p.eval y) = s := by
  obtain ⟨z, hz, h⟩ := ev_right_exists (no_root_right p hp x)
  let m := (x+z)/2
  have hm : x < m ∧ m < z := by constructor <;> simp only [m] <;> linarith
  refine ⟨SignType.sign (p.eval m), by simpa [sign_eq_zero_iff] using h m hm.1 hm.2, ?_⟩
  filter_upwards [Ioo_mem_nhdsGT hz] with y hy
  apply sign_const
  intro w hw
  rcases mem_uIcc.mp hw with h1 | h1
  · exact h w (by linarith [hy.1]) (by linarith [hm.2])
  · exact h w (by linarith [hm.1]) (by linarith [hy.2])
/-- right_sign: the sign just to the right is the sign at the point, or that of the derivative just to the right -/
theorem right_sign (p : ℝ[X]) (x : ℝ) (s t : ℤ) (hs : HasSign p (.right x) s) (ht : HasSign (derivative p) (.right x) t) :
    s = if p.eval x ≠ 0 then (SignType.sign (p.eval x) : ℤ) else t := by
  split_ifs with h0
  · apply hasSign_unique hs
    show ∀ᶠ y in 𝓝[>] x, _
    have : ∀ᶠ y in 𝓝 x, SignType.sign (p.eval y) = SignType.sign (p.eval x) := by
      rcases lt_or_gt_of_ne h0 with h | h
      · filter_upwards [p.continuous.continuousAt.eventually (gt_mem_nhds h)] with y hy
        rw [sign_neg hy, sign_neg h]
      · filter_upwards [p.continuous.continuousAt.eventually (lt_mem_nhds h)] with y hy
        rw [sign_pos hy, sign_pos h]
    filter_upwards [nhdsWithin_le_nhds this] with y hy; rw [hy]
  · push Not at h0
    apply hasSign_unique hs
    obtain ⟨z, hz, h⟩ := ev_right_exists ht
    show ∀ᶠ y in 𝓝[>] x, _
    filter_upwards [Ioo_mem_nhdsGT hz] with y hy
    -- mean value theorem
    obtain ⟨c, hc, hc2⟩ := exists_deriv_eq_slope (fun y => p.eval y) hy.1 p.continuous.continuousOn p.differentiable.differentiableOn
    have h1 := h c hc.1 (lt_trans hc.2 hy.2)
    rw [Polynomial.deriv, h0, sub_zero] at hc2
    have : p.eval y = (derivative p).eval c * (y - x) := by rw [hc2]; field_simp [sub_ne_zero.mpr (ne_of_gt hy.1)]
    rw [this, sign_mul, sign_pos (sub_pos.mpr hy.1), mul_one]; exact h1
/-- towards minus infinity: the sign of the leading coefficient, negated for odd degrees (neglead) -/
theorem sign_posinf (q : ℝ[X]) (hq : q ≠ 0) : ∀ᶠ y in atTop, SignType.sign (q.eval y) = SignType.sign q.leadingCoeff := by
  have h := q.isEquivalent_atTop_lead
  have h2 : ∀ᶠ y : ℝ in atTop, SignType.sign (q.leadingCoeff * y ^ q.natDegree) = SignType.sign q.leadingCoeff := by
    filter_upwards [eventually_gt_atTop 0] with y hy
    rw [sign_mul, sign_pos (pow_pos hy _), mul_one]
  have h3 := h.isTheta
  -- no root beyond the largest one, and the sign is that of the leading term far out
  by_cases hd : q.natDegree = 0
  · rw [eq_C_of_natDegree_eq_zero hd]; simp
  have hdeg : 0 < q.degree := natDegree_pos_iff_degree_pos.mp (Nat.pos_of_ne_zero hd)
  rcases lt_or_gt_of_ne (leadingCoeff_ne_zero.mpr hq) with hl | hl
  · filter_upwards [(q.tendsto_atBot_of_leadingCoeff_nonpos hdeg hl.le).eventually (eventually_lt_atBot 0)] with y hy
    rw [sign_neg hy, sign_neg hl]
  · filter_upwards [(q.tendsto_atTop_of_leadingCoeff_nonneg hdeg hl.le).eventually (eventually_gt_atTop 0)] with y hy
    rw [sign_pos hy, sign_pos hl]
theorem sign_neginf (p : ℝ[X]) (hp : p ≠ 0) : HasSign p .neginf (SignType.sign (p.leadingCoeff * (-1) ^ p.natDegree)) := by
  show ∀ᶠ y in atBot, _
  have h := sign_posinf (p.comp (-X)) (by
    intro h0; apply hp
    have := congrArg (fun q => q.comp (-X)) h0
    simpa [comp_assoc] using this)
  have hl : (p.comp (-X)).leadingCoeff = p.leadingCoeff * (-1) ^ p.natDegree := by
    rw [leadingCoeff_comp (by simp)]; simp
  rw [hl] at h
  have h2 := tendsto_neg_atBot_atTop.eventually h
  filter_upwards [h2] with y hy
  simp only [eval_comp, eval_neg, eval_X, neg_neg] at hy
  rw [hy]
/-! Thom's lemma -/
/-- some derivative of order at least one has different signs at x and y (THOM) -/
def Thom (p : ℝ[X]) (x y : ℝ) : Prop := ∃ k, 1 ≤ k ∧ SignType.sign ((derivative^[k] p).eval x) ≠ SignType.sign ((derivative^[k] p).eval y)
theorem thom_unfold (p : ℝ[X]) (x y : ℝ) (h : Thom p x y) : 1 ≤ p.natDegree ∧
    (SignType.sign ((derivative p).eval x) ≠ SignType.sign ((derivative p).eval y) ∨ Thom (derivative p) x y) := by
  obtain ⟨k, hk, h⟩ := h
  obtain ⟨j, rfl⟩ : ∃ j, k = j + 1 := ⟨k - 1, by omega⟩
  constructor
  · by_contra h0
    apply h
    rw [iterate_derivative_eq_zero (by omega)]; simp
  · rcases Nat.eq_zero_or_pos j with rfl | hj
    · left; simpa using h
    · right; exact ⟨j, hj, by simpa [Function.iterate_succ_apply] using h⟩
theorem mono_case {p : ℝ[X]} {x y : ℝ} (hxy : x < y) {s : SignType} (h : ∀ z ∈ Icc x y, SignType.sign ((derivative p).eval z) = s) :
    (s = 1 ∧ StrictMonoOn (fun z => p.eval z) (Icc x y)) ∨ (s = -1 ∧ StrictAntiOn (fun z => p.eval z) (Icc x y)) ∨ (s = 0 ∧ derivative p = 0) := by
  have hd : ∀ z, deriv (fun z => p.eval z) z = (derivative p).eval z := fun z => Polynomial.deriv (p := p) (x := z)
  rcases s.trichotomy with hs | hs | hs
  · right; left; refine ⟨hs, strictAntiOn_of_deriv_neg (convex_Icc x y) p.continuous.continuousOn ?_⟩
    intro z hz; rw [hd]; exact sign_eq_neg_one_iff.mp (by rw [h z (interior_subset hz), hs])
  · right; right; refine ⟨hs, ?_⟩
    apply Polynomial.eq_zero_of_infinite_isRoot
    apply (Icc_infinite hxy).mono
    intro z hz; exact sign_eq_zero_iff.mp (by rw [h z hz, hs])
  · left; refine ⟨hs, strictMonoOn_of_deriv_pos (convex_Icc x y) p.continuous.continuousOn ?_⟩
    intro z hz; rw [hd]; exact sign_eq_one_iff.mp (by rw [h z (interior_subset hz), hs])
theorem thom_const (n : ℕ) : ∀ p : ℝ[X], p.natDegree ≤ n → ∀ x y : ℝ, x < y → (∀ k, SignType.sign ((derivative^[k] p).eval x) = SignType.sign ((derivative^[k] p).eval y)) →
    ∀ z ∈ Icc x y, SignType.sign (p.eval z) = SignType.sign (p.eval x) := by
  induction n with
  | zero =>
    intro p hp x y _ _ z _
    rw [eq_C_of_natDegree_le_zero hp]; simp
  | succ n ih =>
    intro p hp x y hxy h z hz
    have hd : ∀ z ∈ Icc x y, SignType.sign ((derivative p).eval z) = SignType.sign ((derivative p).eval x) :=
      ih (derivative p) (le_trans (natDegree_derivative_le p) (by omega)) x y hxy (fun k => by have := h (k+1); simpa [Function.iterate_succ_apply] using this)
    have h0 := h 0; simp only [Function.iterate_zero, id] at h0
    have mx : x ∈ Icc x y := left_mem_Icc.mpr hxy.le
    have my : y ∈ Icc x y := right_mem_Icc.mpr hxy.le
    rcases mono_case hxy hd with ⟨_, hm⟩ | ⟨_, hm⟩ | ⟨_, hm⟩
    · have a : p.eval x ≤ p.eval z := hm.monotoneOn mx hz hz.1
      have b : p.eval z ≤ p.eval y := hm.monotoneOn hz my hz.2
      have c : p.eval x < p.eval y := hm mx my hxy
      rcases lt_trichotomy (p.eval x) 0 with g | g | g
      · rw [sign_neg g] at h0 ⊢; have := sign_eq_neg_one_iff.mp h0.symm; exact sign_neg (lt_of_le_of_lt b this)
      · rw [g, sign_zero] at h0; have := sign_eq_zero_iff.mp h0.symm; linarith
      · rw [sign_pos g]; exact sign_pos (lt_of_lt_of_le g a)
    · have a : p.eval z ≤ p.eval x := hm.antitoneOn mx hz hz.1
      have b : p.eval y ≤ p.eval z := hm.antitoneOn hz my hz.2
      have c : p.eval y < p.eval x := hm mx my hxy
      rcases lt_trichotomy (p.eval x) 0 with g | g | g
      · rw [sign_neg g]; exact sign_neg (lt_of_le_of_lt a g)
      · rw [g, sign_zero] at h0; have := sign_eq_zero_iff.mp h0.symm; linarith
      · rw [sign_pos g] at h0 ⊢; have := sign_eq_one_iff.mp h0.symm; exact sign_pos (lt_of_lt_of_le this b)
    · rw [eq_C_of_derivative_eq_zero hm]; simp
/-- lem_thom: two different roots differ in the sign of some derivative -/
theorem thom (p : ℝ[X]) (hp : p ≠ 0) (x y : ℝ) (hxy : x ≠ y) (hx : p.eval x = 0) (hy : p.eval y = 0) : Thom p x y := by
  by_contra hc
  have hs : ∀ k, 1 ≤ k → SignType.sign ((derivative^[k] p).eval x) = SignType.sign ((derivative^[k] p).eval y) := by
    intro k hk; by_contra h; exact hc ⟨k, hk, h⟩
  have main : ∀ x y : ℝ, x < y → p.eval x = 0 → p.eval y = 0 → (∀ k, 1 ≤ k → SignType.sign ((derivative^[k] p).eval x) = SignType.sign ((derivative^[k] p).eval y)) → False := by
    intro x y hxy hx hy hs
    have hd := thom_const _ (derivative p) le_rfl x y hxy (fun k => by have := hs (k+1) (by omega); simpa [Function.iterate_succ_apply] using this)
    have mx : x ∈ Icc x y := left_mem_Icc.mpr hxy.le
    have my : y ∈ Icc x y := right_mem_Icc.mpr hxy.le
    rcases mono_case hxy hd with ⟨_, hm⟩ | ⟨_, hm⟩ | ⟨_, hm⟩
    · have := hm mx my hxy; simp only [hx, hy] at this; exact lt_irrefl _ this
    · have := hm mx my hxy; simp only [hx, hy] at this; exact lt_irrefl _ this
    · have h := eq_C_of_derivative_eq_zero hm
      rw [h] at hx; simp only [eval_C] at hx
      rw [hx, C_0] at h; exact hp h
  rcases lt_or_gt_of_ne hxy with h | h
  · exact main x y h hx hy hs
  · exact main y x h hy hx (fun k hk => (hs k hk).symm)
/-! test points -/
structure Sys where
  le : List ℝ[X]
  lt : List ℝ[X]
  eq : List ℝ[X]
  ne : List ℝ[X]
/-- all constraints hold at the place (satp) -/
def Sys.ok (S : Sys) (pt : Place) : Prop :=
  (∀ p ∈ S.le, ∀ᶠ y in pt.flt, p.eval y ≤ 0) ∧ (∀ p ∈ S.lt, ∀ᶠ y in pt.flt, p.eval y < 0) ∧
  (∀ p ∈ S.eq, ∀ᶠ y in pt.flt, p.eval y = 0) ∧ (∀ p ∈ S.ne, ∀ᶠ y in pt.flt, p.eval y ≠ 0)
def Sys.good (S : Sys) : Prop := ∀ p, p ∈ S.le ∨ p ∈ S.lt ∨ p ∈ S.eq ∨ p ∈ S.ne → p ≠ 0
theorem ok_signs (p : ℝ[X]) (pt : Place) (s : ℤ) (h : HasSign p pt s) :
    ((∀ᶠ y in pt.flt, p.eval y ≤ 0) ↔ s ≤ 0) ∧ ((∀ᶠ y in pt.flt, p.eval y < 0) ↔ s < 0) ∧ ((∀ᶠ y in pt.flt, p.eval y = 0) ↔ s = 0) ∧ ((∀ᶠ y in pt.flt, p.eval y ≠ 0) ↔ s ≠ 0) := by
  have key : ∀ (P : ℝ → Prop) (Q : ℤ → Prop), (∀ v, P v ↔ Q (SignType.sign v : ℤ)) → ((∀ᶠ y in pt.flt, P (p.eval y)) ↔ Q s) := by
    intro P Q hPQ
    constructor
    · intro hP
      obtain ⟨y, a, b⟩ := (hP.and h).exists
      rw [← b]; exact (hPQ _).mp a
    · intro hQ
      filter_upwards [h] with y hy
      rw [hPQ, hy]; exact hQ
  refine ⟨key (· ≤ 0) (· ≤ 0) ?_, key (· < 0) (· < 0) ?_, key (· = 0) (· = 0) ?_, key (· ≠ 0) (· ≠ 0) ?_⟩ <;>
  · intro v
    rcases lt_trichotomy v 0 with h | h | h
    · simp [sign_neg h, h.le, h, h.ne]
    · simp [h]
    · simp [sign_pos h, h, h.le, h.ne', not_le.mpr h]
/-- satisfied at a place: satisfied at a number -/
theorem place_real (S : Sys) (pt : Place) (h : S.ok pt) : ∃ x : ℝ, S.ok (.at_ x) := by
  obtain ⟨h1, h2, h3, h4⟩ := h
  have a := (S.le.toFinset.eventually_all (l := pt.flt) (p := fun p y => p.eval y ≤ 0)).mpr (fun p hp => h1 p (List.mem_toFinset.mp hp))
  have b := (S.lt.toFinset.eventually_all (l := pt.flt) (p := fun p y => p.eval y < 0)).mpr (fun p hp => h2 p (List.mem_toFinset.mp hp))
  have c := (S.eq.toFinset.eventually_all (l := pt.flt) (p := fun p y => p.eval y = 0)).mpr (fun p hp => h3 p (List.mem_toFinset.mp hp))
  have d := (S.ne.toFinset.eventually_all (l := pt.flt) (p := fun p y => p.eval y ≠ 0)).mpr (fun p hp => h4 p (List.mem_toFinset.mp hp))
  obtain ⟨y, ⟨⟨ha, hb⟩, hc⟩, hd⟩ := (((a.and b).and c).and d).exists
  refine ⟨y, ?_, ?_, ?_, ?_⟩ <;> intro p hp <;> simp only [Place.flt, eventually_pure]
  · exact ha p (List.mem_toFinset.mpr hp)
  · exact hb p (List.mem_toFinset.mpr hp)
  · exact hc p (List.mem_toFinset.mpr hp)
  · exact hd p (List.mem_toFinset.mpr hp)
/-- ax_sat: a satisfiable system is satisfied at minus infinity, at a root of a polynomial of the first or third
    list or just to the right of a root of one of the second or fourth list -/
theorem test_points (S : Sys) (hS : S.good) (x : ℝ) (h : S.ok (.at_ x)) :
    S.ok .neginf ∨ (∃ p ∈ S.le, ∃ r, p.eval r = 0 ∧ S.ok (.at_ r)) ∨ (∃ p ∈ S.eq, ∃ r, p.eval r = 0 ∧ S.ok (.at_ r)) ∨
    (∃ p ∈ S.lt, ∃ r, p.eval r = 0 ∧ S.ok (.right r)) ∨ (∃ p ∈ S.ne, ∃ r, p.eval r = 0 ∧ S.ok (.right r)) := by
  obtain ⟨h1, h2, h3, h4⟩ := id h
  simp only [Place.flt, eventually_pure] at h1 h2 h3 h4
  by_cases hle : ∃ p ∈ S.le, p.eval x = 0
  · obtain ⟨p, hp, hx⟩ := hle; exact Or.inr (Or.inl ⟨p, hp, x, hx, h⟩)
  by_cases heq : ∃ p, p ∈ S.eq
  · obtain ⟨p, hp⟩ := heq; exact Or.inr (Or.inr (Or.inl ⟨p, hp, x, h3 p hp, h⟩))
  push Not at hle heq
  let A : Finset ℝ[X] := S.le.toFinset ∪ S.lt.toFinset ∪ S.ne.toFinset
  have hA : ∀ p, p ∈ A ↔ p ∈ S.le ∨ p ∈ S.lt ∨ p ∈ S.ne := by intro p; simp [A, or_assoc]
  have hA0 : ∀ p ∈ A, p ≠ 0 := by intro p hp; rcases (hA p).mp hp with g | g | g <;> exact hS p (by tauto)
  have hx0 : ∀ p ∈ A, p.eval x ≠ 0 := by
    intro p hp; rcases (hA p).mp hp with g | g | g
    · exact hle p g
    · exact (h2 p g).ne
    · exact h4 p g
  let R : Finset ℝ := (A.biUnion (fun p => p.roots.toFinset)).filter (· < x)
  have hR : ∀ r, r ∈ R ↔ (∃ p ∈ A, p.eval r = 0) ∧ r < x := by
    intro r; simp only [R, Finset.mem_filter, Finset.mem_biUnion, Multiset.mem_toFinset]
    constructor
    · rintro ⟨⟨p, hp, hr⟩, hl⟩; exact ⟨⟨p, hp, (mem_roots (hA0 p hp)).mp hr⟩, hl⟩
    · rintro ⟨⟨p, hp, hr⟩, hl⟩; exact ⟨⟨p, hp, (mem_roots (hA0 p hp)).mpr hr⟩, hl⟩
  rcases R.eq_empty_or_nonempty with hE | hE
  · -- no root to the left of x
    left
    have hs : ∀ p ∈ A, ∀ y ≤ x, SignType.sign (p.eval y) = SignType.sign (p.eval x) := by
      intro p hp y hy
      apply sign_const
      intro w hw h0
      rw [uIcc_of_le hy] at hw
      rcases hw.2.lt_or_eq with g | g
      · have : w ∈ R := (hR w).mpr ⟨⟨p, hp, h0⟩, g⟩
        rw [hE] at this; simp at this
      · rw [g] at h0; exact hx0 p hp h0
    refine ⟨?_, ?_, ?_, ?_⟩ <;> intro p hp <;> show ∀ᶠ y in atBot, _
    · filter_upwards [eventually_le_atBot x] with y hy
      have := hs p ((hA p).mpr (by tauto)) y hy
      have g : p.eval x < 0 := lt_of_le_of_ne (h1 p hp) (hle p hp)
      rw [sign_neg g] at this; exact (sign_eq_neg_one_iff.mp this).le
    · filter_upwards [eventually_le_atBot x] with y hy
      have := hs p ((hA p).mpr (by tauto)) y hy
      rw [sign_neg (h2 p hp)] at this; exact sign_eq_neg_one_iff.mp this
    · exact absurd hp (heq p)
    · filter_upwards [eventually_le_atBot x] with y hy
      have := hs p ((hA p).mpr (by tauto)) y hy
      intro g; rw [g, sign_zero] at this; exact h4 p hp (sign_eq_zero_iff.mp this.symm)
  · -- the last root to the left of x
    obtain ⟨r, hr, hmax⟩ := R.exists_max_image id hE
    obtain ⟨⟨q, hq, hqr⟩, hrx⟩ := (hR r).mp hr
    have hs : ∀ p ∈ A, ∀ y, r < y → y ≤ x → SignType.sign (p.eval y) = SignType.sign (p.eval x) := by
      intro p hp y hy hyx
      apply sign_const
      intro w hw h0
      rw [uIcc_of_le hyx] at hw
      rcases hw.2.lt_or_eq with g | g
      · have : w ≤ r := hmax w ((hR w).mpr ⟨⟨p, hp, h0⟩, g⟩)
        linarith [hw.1]
      · rw [g] at h0; exact hx0 p hp h0
    have ev : ∀ p ∈ A, ∀ᶠ y in 𝓝[>] r, SignType.sign (p.eval y) = SignType.sign (p.eval x) := by
      intro p hp
      filter_upwards [Ioo_mem_nhdsGT hrx] with y hy
      exact hs p hp y hy.1 hy.2.le
    have okr : S.ok (.right r) := by
      refine ⟨?_, ?_, ?_, ?_⟩ <;> intro p hp <;> show ∀ᶠ y in 𝓝[>] r, _
      · filter_upwards [ev p ((hA p).mpr (by tauto))] with y this
        have g : p.eval x < 0 := lt_of_le_of_ne (h1 p hp) (hle p hp)
        rw [sign_neg g] at this; exact (sign_eq_neg_one_iff.mp this).le
      · filter_upwards [ev p ((hA p).mpr (by tauto))] with y this
        rw [sign_neg (h2 p hp)] at this; exact sign_eq_neg_one_iff.mp this
      · exact absurd hp (heq p)
      · filter_upwards [ev p ((hA p).mpr (by tauto))] with y this
        intro g; rw [g, sign_zero] at this; exact h4 p hp (sign_eq_zero_iff.mp this.symm)
    by_cases c1 : ∃ p ∈ S.lt, p.eval r = 0
    · obtain ⟨p, hp, g⟩ := c1; exact Or.inr (Or.inr (Or.inr (Or.inl ⟨p, hp, r, g, okr⟩)))
    by_cases c2 : ∃ p ∈ S.ne, p.eval r = 0
    · obtain ⟨p, hp, g⟩ := c2; exact Or.inr (Or.inr (Or.inr (Or.inr ⟨p, hp, r, g, okr⟩)))
    push Not at c1 c2
    have hql : q ∈ S.le := by rcases (hA q).mp hq with g | g | g; exact g; exact absurd hqr (c1 q g); exact absurd hqr (c2 q g)
    refine Or.inr (Or.inl ⟨q, hql, r, hqr, ?_, ?_, ?_, ?_⟩) <;> intro p hp <;> simp only [Place.flt, eventually_pure]
    · by_contra hpos; push Not at hpos
      have : ∀ᶠ y in 𝓝[>] r, 0 < p.eval y := nhdsWithin_le_nhds (p.continuous.continuousAt.eventually (lt_mem_nhds hpos))
      obtain ⟨y, a, b⟩ := (this.and (okr.1 p hp)).exists
      linarith
    · have hpA := (hA p).mpr (Or.inr (Or.inl hp))
      have : SignType.sign (p.eval r) = SignType.sign (p.eval x) := by
        apply sign_const; intro w hw h0
        rw [uIcc_of_le hrx.le] at hw
        rcases hw.1.eq_or_lt with g | g
        · rw [← g] at h0; exact c1 p hp h0
        · have := hs p hpA w g hw.2; rw [h0, sign_zero] at this; exact hx0 p hpA (sign_eq_zero_iff.mp this.symm)
      rw [sign_neg (h2 p hp)] at this; exact sign_eq_neg_one_iff.mp this
    · exact absurd hp (heq p)
    · exact c2 p hp
end RAG
#print axioms RAG.right_sign
#print axioms RAG.sign_neginf
#print axioms RAG.thom_unfold
#print axioms RAG.thom
#print axioms RAG.ok_signs
#print axioms RAG.place_real
#print axioms RAG.test_points
