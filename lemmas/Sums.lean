import Mathlib

/-!
The rewriting rules of `pyvc/terms.py` (finite sums and maxima) and the closed forms of `pyvc/loops.py`,
stated over the reals and proved once and for all.  `ind p` is the indicator the verifier writes `[p]`.
-/

open Finset BigOperators

namespace Pyvc

noncomputable def ind (p : Prop) : ℝ := by classical exact if p then 1 else 0

theorem ind_true {p : Prop} (h : p) : ind p = 1 := by simp [ind, h]
theorem ind_false {p : Prop} (h : ¬p) : ind p = 0 := by simp [ind, h]

/-! ### indicators -/
theorem ind_not (p : Prop) : ind (¬p) = 1 - ind p := by
  by_cases h : p <;> simp [ind, h]
theorem ind_and (p q : Prop) : ind (p ∧ q) = ind p * ind q := by
  by_cases h : p <;> by_cases g : q <;> simp [ind, h, g]
theorem ind_or (p q : Prop) : ind (p ∨ q) = ind p + ind q - ind p * ind q := by
  by_cases h : p <;> by_cases g : q <;> simp [ind, h, g]
theorem ind_idem (p : Prop) : ind p * ind p = ind p := by
  by_cases h : p <;> simp [ind, h]
theorem ind_gt_trichotomy (x : ℝ) : ind (x > 0) + ind (x = 0) + ind (-x > 0) = 1 := by
  rcases lt_trichotomy x 0 with h | h | h
  · simp [ind, h, h.ne, not_lt.mpr h.le]
  · simp [ind, h]
  · simp [ind, h, h.ne', not_lt.mpr h.le]
/-- `gt0` of a non-negative term -/
theorem ind_pos_of_nonneg (x : ℝ) (h : 0 ≤ x) : ind (x > 0) = 1 - ind (x = 0) := by
  rcases h.eq_or_lt with g | g
  · simp [ind, ← g]
  · simp [ind, g, g.ne']
/-- `[x = 0] x = 0` -/
theorem ind_eq_mul (x : ℝ) : ind (x = 0) * x = 0 := by
  by_cases h : x = 0 <;> simp [ind, h]
/-- comparisons of integers are normalised to strict ones -/
theorem ind_int_ge (x : ℤ) : ind (x ≥ 0) = ind (x + 1 > 0) := by
  congr 1; apply propext; omega
theorem ind_int_neg (x : ℤ) : ind (x > 0) = 1 - ind (-x + 1 > 0) := by
  rw [← ind_not]; congr 1; apply propext; omega
/-- if-then-else -/
theorem ite_ind (p : Prop) [Decidable p] (a b : ℝ) : (if p then a else b) = ind p * a + (1 - ind p) * b := by
  by_cases h : p <;> simp [ind, h]
/-- `maxv f (-f) = |f|` -/
theorem max_neg_abs (x : ℝ) : max x (-x) = |x| := rfl

/-! ### finite sums over `0 ≤ v < n` -/
theorem sum_const (n : ℕ) (c : ℝ) : ∑ _v ∈ range n, c = n * c := by simp
theorem sum_add (n : ℕ) (f g : ℕ → ℝ) : ∑ v ∈ range n, (f v + g v) = ∑ v ∈ range n, f v + ∑ v ∈ range n, g v :=
  sum_add_distrib
theorem sum_factor (n : ℕ) (c : ℝ) (f : ℕ → ℝ) : ∑ v ∈ range n, c * f v = c * ∑ v ∈ range n, f v :=
  (mul_sum _ _ _).symm
/-- peeling a constant offset of the bound -/
theorem sum_peel (n : ℕ) (f : ℕ → ℝ) : ∑ v ∈ range (n + 1), f v = ∑ v ∈ range n, f v + f n := sum_range_succ f n
theorem sum_peel_neg (n : ℕ) (h : 1 ≤ n) (f : ℕ → ℝ) :
    ∑ v ∈ range (n - 1), f v = ∑ v ∈ range n, f v - f (n - 1) := by
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  simp [sum_range_succ]
/-- the opposite order -/
theorem sum_reverse (n : ℕ) (f : ℕ → ℝ) : ∑ v ∈ range n, f (n - 1 - v) = ∑ v ∈ range n, f v := sum_range_reflect f n
/-- elimination of a Kronecker delta -/
theorem sum_delta (n : ℕ) (e : ℤ) (f : ℤ → ℝ) :
    ∑ v ∈ range n, ind ((v : ℤ) = e) * f v = ind (0 ≤ e ∧ e < n) * f e := by
  by_cases h : 0 ≤ e ∧ e < n
  · obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
    have hk : k < n := by exact_mod_cast h.2
    rw [ind_true h, one_mul, sum_eq_single k]
    · rw [ind_true rfl, one_mul]
    · intro b _ hb
      rw [ind_false (by exact_mod_cast hb), zero_mul]
    · intro hb; exact absurd (mem_range.mpr hk) hb
  · rw [ind_false h, zero_mul]
    apply sum_eq_zero
    intro v hv
    rw [ind_false, zero_mul]
    rintro rfl
    exact h ⟨by positivity, by exact_mod_cast mem_range.mp hv⟩
/-- guards that bound the index -/
theorem sum_guard_lt (n e : ℕ) (h : e ≤ n) (f : ℕ → ℝ) :
    ∑ v ∈ range n, ind (v < e) * f v = ∑ v ∈ range e, f v := by
  classical
  have : ∀ v, ind (v < e) * f v = if v < e then f v else 0 := by
    intro v; by_cases g : v < e <;> simp [ind, g]
  simp only [this, ← sum_filter]
  congr 1; ext v; simp; omega
theorem sum_guard_ge (n lo : ℕ) (h : lo ≤ n) (f : ℕ → ℝ) :
    ∑ v ∈ range n, ind (lo ≤ v) * f v = ∑ v ∈ range n, f v - ∑ v ∈ range lo, f v := by
  have : ∀ v, ind (lo ≤ v) * f v = f v - ind (v < lo) * f v := by
    intro v
    by_cases g : v < lo
    · simp [ind, g, not_le.mpr g]
    · simp [ind, g, not_lt.mp g]
  simp only [this, sum_sub_distrib, sum_guard_lt n lo h]
/-- products of sums, exchange of summations -/
theorem sum_mul_sum' (n m : ℕ) (f g : ℕ → ℝ) :
    (∑ v ∈ range n, f v) * ∑ w ∈ range m, g w = ∑ v ∈ range n, ∑ w ∈ range m, f v * g w := sum_mul_sum _ _ _ _
theorem sum_exchange (n m : ℕ) (f : ℕ → ℕ → ℝ) :
    ∑ v ∈ range n, ∑ w ∈ range m, f v w = ∑ w ∈ range m, ∑ v ∈ range n, f v w := sum_comm
theorem sum_nonneg' (n : ℕ) (f : ℕ → ℝ) (h : ∀ v < n, 0 ≤ f v) : 0 ≤ ∑ v ∈ range n, f v :=
  sum_nonneg fun v hv => h v (mem_range.mp hv)
/-- a sum over all components of all features, for the flat index of `numpy.repeat` -/
theorem sum_segments (n : ℕ) (k : ℕ → ℕ) (g : ℕ → ℝ) :
    ∑ v ∈ range (∑ f ∈ range n, k f), g v
      = ∑ f ∈ range n, ∑ j ∈ range (k f), g ((∑ e ∈ range f, k e) + j) := by
  induction n with
  | zero => simp
  | succ n ih => rw [sum_range_succ, sum_range_succ, ← ih, sum_range_add]
/-- a non-negative sum is positive exactly if some term is (numpy.any) -/
theorem sum_ind_pos (n : ℕ) (p : ℕ → Prop) : 0 < ∑ v ∈ range n, ind (p v) ↔ ∃ v < n, p v := by
  constructor
  · intro h
    by_contra hn
    push Not at hn
    have : ∑ v ∈ range n, ind (p v) = 0 := sum_eq_zero fun v hv => ind_false (hn v (mem_range.mp hv))
    linarith
  · rintro ⟨v, hv, hp⟩
    have h0 : ∀ w ∈ range n, 0 ≤ ind (p w) := by
      intro w _; by_cases g : p w <;> simp [ind, g]
    have := single_le_sum h0 (mem_range.mpr hv)
    rw [ind_true hp] at this
    linarith
/-- all (numpy.all): the indicators sum to the number of terms -/
theorem sum_ind_all (n : ℕ) (p : ℕ → Prop) : ∑ v ∈ range n, ind (p v) = n ↔ ∀ v < n, p v := by
  have e : ∑ v ∈ range n, ind (p v) = n - ∑ v ∈ range n, ind (¬p v) := by
    simp only [ind_not, sum_sub_distrib]; simp
  rw [e]
  constructor
  · intro h v hv
    by_contra hp
    have := (sum_ind_pos n fun v => ¬p v).mpr ⟨v, hv, hp⟩
    linarith
  · intro h
    have : ∑ v ∈ range n, ind (¬p v) = 0 := sum_eq_zero fun v hv => ind_false (by simpa using h v (mem_range.mp hv))
    rw [this, sub_zero]

/-! ### maxima over `0 ≤ v < n` -/
/-- `m` is the maximum of `f` over `v < n` -/
def IsMaxOver (n : ℕ) (f : ℕ → ℝ) (m : ℝ) : Prop := (∃ v < n, f v = m) ∧ ∀ v < n, f v ≤ m

theorem max_unique {n : ℕ} {f : ℕ → ℝ} {m m' : ℝ} (h : IsMaxOver n f m) (h' : IsMaxOver n f m') : m = m' := by
  obtain ⟨⟨v, hv, rfl⟩, hm⟩ := h
  obtain ⟨⟨w, hw, rfl⟩, hm'⟩ := h'
  exact le_antisymm (hm' v hv) (hm w hw)
theorem max_exists (n : ℕ) (h : 0 < n) (f : ℕ → ℝ) : ∃ m, IsMaxOver n f m := by
  obtain ⟨v, hv, hm⟩ := exists_max_image (range n) f ⟨0, mem_range.mpr h⟩
  exact ⟨f v, ⟨v, mem_range.mp hv, rfl⟩, fun w hw => hm w (mem_range.mpr hw)⟩
theorem max_factor {n : ℕ} {f : ℕ → ℝ} {m c : ℝ} (hc : 0 ≤ c) (h : IsMaxOver n f m) :
    IsMaxOver n (fun v => c * f v) (c * m) := by
  obtain ⟨⟨v, hv, rfl⟩, hm⟩ := h
  exact ⟨⟨v, hv, rfl⟩, fun w hw => mul_le_mul_of_nonneg_left (hm w hw) hc⟩
theorem max_reverse {n : ℕ} {f : ℕ → ℝ} {m : ℝ} (h : IsMaxOver n f m) : IsMaxOver n (fun v => f (n - 1 - v)) m := by
  obtain ⟨⟨v, hv, rfl⟩, hm⟩ := h
  refine ⟨⟨n - 1 - v, by omega, ?_⟩, fun w hw => hm _ (by omega)⟩
  show f (n - 1 - (n - 1 - v)) = f v
  congr 1; omega
/-- `max (max f) (max (-f)) = max |f|` -/
theorem max_abs {n : ℕ} {f : ℕ → ℝ} {a b : ℝ} (ha : IsMaxOver n f a) (hb : IsMaxOver n (fun v => -f v) b) :
    IsMaxOver n (fun v => |f v|) (max a b) := by
  obtain ⟨⟨v, hv, rfl⟩, hm⟩ := ha
  obtain ⟨⟨w, hw, rfl⟩, hm'⟩ := hb
  constructor
  · rcases le_total (f v) (-f w) with h | h
    · refine ⟨w, hw, ?_⟩
      have h1 := hm w hw
      have : f w ≤ 0 := by linarith
      simp only [max_eq_right h, abs_of_nonpos this]
    · refine ⟨v, hv, ?_⟩
      have h1 := hm' v hv
      have : 0 ≤ f v := by
        by_contra hn; push Not at hn
        have := hm' v hv
        simp only at this
        have := hm w hw
        linarith
      simp only [max_eq_left h, abs_of_nonneg this]
  · intro u hu
    rcases abs_cases (f u) with ⟨e, _⟩ | ⟨e, _⟩
    · simp only [e]; exact le_max_of_le_left (hm u hu)
    · simp only [e]; exact le_max_of_le_right (hm' u hu)
/-- a maximum exceeds a bound exactly if some element does -/
theorem max_gt {n : ℕ} {f : ℕ → ℝ} {m c : ℝ} (h : IsMaxOver n f m) : m > c ↔ ∃ v < n, f v > c := by
  obtain ⟨⟨v, hv, rfl⟩, hm⟩ := h
  exact ⟨fun g => ⟨v, hv, g⟩, fun ⟨w, hw, g⟩ => lt_of_lt_of_le g (hm w hw)⟩

/-! ### closed forms of loops (state `s k` at the beginning of iteration `k`) -/
/-- accumulation -/
theorem loop_sum (s f : ℕ → ℝ) (h : ∀ k, s (k + 1) = s k + f k) (n : ℕ) : s n = s 0 + ∑ k ∈ range n, f k := by
  induction n with
  | zero => simp
  | succ n ih => rw [h, ih, sum_range_succ, add_assoc]
/-- product -/
theorem loop_prod (s f : ℕ → ℝ) (h : ∀ k, s (k + 1) = s k * f k) (n : ℕ) : s n = s 0 * ∏ k ∈ range n, f k := by
  induction n with
  | zero => simp
  | succ n ih => rw [h, ih, prod_range_succ, mul_assoc]
/-- value of the last iteration -/
theorem loop_last (s f : ℕ → ℝ) (h : ∀ k, s (k + 1) = f k) (n : ℕ) (hn : 0 < n) : s n = f (n - 1) := by
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  simpa using h m
/-- element `k` written in iteration `k` -/
theorem loop_element (s : ℕ → ℕ → ℝ) (f : ℕ → ℝ) (h : ∀ k i, s (k + 1) i = if i = k then f k else s k i)
    (n i : ℕ) : s n i = if i < n then f i else s 0 i := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [h]
    by_cases e : i = n
    · subst e; simp
    · rw [if_neg e, ih]
      by_cases g : i < n
      · rw [if_pos g, if_pos (by omega)]
      · rw [if_neg g, if_neg (by omega)]
/-- an element that the iteration of its own index updates, otherwise unchanged -/
theorem loop_update (s : ℕ → ℕ → ℝ) (f : ℕ → ℝ → ℝ) (h : ∀ k i, s (k + 1) i = if i = k then f k (s k k) else s k i)
    (n i : ℕ) : s n i = if i < n then f i (s 0 i) else s 0 i := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [h]
    by_cases e : i = n
    · subst e
      have : s i i = s 0 i := by rw [ih, if_neg (by omega)]
      rw [if_pos rfl, if_pos (by omega), this]
    · rw [if_neg e, ih]
      by_cases g : i < n
      · rw [if_pos g, if_pos (by omega)]
      · rw [if_neg g, if_neg (by omega)]
/-- running maximum -/
theorem loop_max (s f : ℕ → ℝ) (h : ∀ k, s (k + 1) = max (s k) (f k)) (n : ℕ) :
    (s n = s 0 ∨ ∃ k < n, s n = f k) ∧ s 0 ≤ s n ∧ ∀ k < n, f k ≤ s n := by
  induction n with
  | zero => simp
  | succ n ih =>
    obtain ⟨h1, h2, h3⟩ := ih
    rw [h]
    refine ⟨?_, le_max_of_le_left h2, ?_⟩
    · rcases le_total (s n) (f n) with g | g
      · right; exact ⟨n, by omega, max_eq_right g⟩
      · rcases h1 with e | ⟨k, hk, e⟩
        · left; rw [max_eq_left g, e]
        · right; exact ⟨k, by omega, by rw [max_eq_left g, e]⟩
    · intro k hk
      rcases Nat.lt_succ_iff_lt_or_eq.mp hk with g | rfl
      · exact le_max_of_le_left (h3 k g)
      · exact le_max_right _ _
/-- a counter that never decreases stays non-negative -/
theorem loop_monotone (s : ℕ → ℝ) (h0 : 0 ≤ s 0) (h : ∀ k, s k ≤ s (k + 1)) (n : ℕ) : 0 ≤ s n := by
  induction n with
  | zero => exact h0
  | succ n ih => exact ih.trans (h n)
/-- segments: iteration `k` writes the elements `off k ≤ i < off k + len k`, the offset grows by `len k` -/
theorem loop_segment (s : ℕ → ℕ → ℝ) (off len : ℕ → ℕ) (f : ℕ → ℕ → ℝ) (o : ∀ k, off (k + 1) = off k + len k)
    (h : ∀ k i, s (k + 1) i = if off k ≤ i ∧ i < off k + len k then f k i else s k i)
    (n k i : ℕ) (hk : k < n) (hi : off k ≤ i ∧ i < off k + len k) : s n i = f k i := by
  have mono : ∀ a b, a ≤ b → off a ≤ off b := by
    intro a b hab
    induction b with
    | zero => rw [Nat.le_zero.mp hab]
    | succ b ih =>
      rcases Nat.lt_or_eq_of_le hab with g | rfl
      · rw [o]; exact (ih (by omega)).trans (Nat.le_add_right _ _)
      · exact le_rfl
  induction n with
  | zero => omega
  | succ n ih =>
    rw [h]
    rcases Nat.lt_succ_iff_lt_or_eq.mp hk with g | rfl
    · have := mono (k + 1) n (by omega)
      rw [o] at this
      rw [if_neg (by omega), ih g]
    · rw [if_pos hi]

/-! ### ghost sums of `pyvc/imp_vc.py` -/
/-- a single write changes a sum by the difference -/
theorem ghost_write (n j : ℕ) (hj : j < n) (f : ℕ → ℝ) (x : ℝ) :
    ∑ v ∈ range n, (if v = j then x else f v) = ∑ v ∈ range n, f v + (x - f j) := by
  have : ∀ v, (if v = j then x else f v) = f v + (if v = j then x - f j else 0) := by
    intro v; by_cases e : v = j <;> simp [e]
  simp only [this, sum_add_distrib]
  rw [sum_ite_eq' (range n) j, if_pos (mem_range.mpr hj)]
/-- two states that agree everywhere have the same sum -/
theorem ghost_congr (n : ℕ) (f g : ℕ → ℝ) (h : ∀ v < n, f v = g v) : ∑ v ∈ range n, f v = ∑ v ∈ range n, g v :=
  sum_congr rfl fun v hv => h v (mem_range.mp hv)
/-- a non-negative sum that is positive has a positive element -/
theorem ghost_positive (n : ℕ) (f : ℕ → ℝ) (h : 0 < ∑ v ∈ range n, f v) : ∃ v < n, 0 < f v := by
  by_contra hn
  push Not at hn
  have := sum_nonpos fun v hv => hn v (mem_range.mp hv)
  linarith

/-! ### logarithms and exponentials -/
theorem exp_sum (x y : ℝ) : Real.exp x * Real.exp y = Real.exp (x + y) := (Real.exp_add x y).symm
theorem exp_log' (x : ℝ) (h : 0 < x) : Real.exp (Real.log x) = x := Real.exp_log h
theorem log_exp' (x : ℝ) : Real.log (Real.exp x) = x := Real.log_exp x
theorem log_mul' (x y : ℝ) (hx : 0 < x) (hy : 0 < y) : Real.log (x * y) = Real.log x + Real.log y :=
  Real.log_mul hx.ne' hy.ne'
theorem log_inv' (x : ℝ) : Real.log x⁻¹ = -Real.log x := Real.log_inv x

/-! ### derivatives used for gradients and Hessians -/
theorem deriv_xlogx (x : ℝ) (h : x ≠ 0) : deriv (fun x => x * Real.log x) x = Real.log x + 1 := Real.deriv_mul_log h
theorem deriv_log' (x : ℝ) : deriv Real.log x = x⁻¹ := Real.deriv_log x
theorem deriv_exp' (x : ℝ) : deriv Real.exp x = Real.exp x := by simp

end Pyvc
