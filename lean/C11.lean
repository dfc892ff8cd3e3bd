/-! The closed formula of the contract of fermi_bose is the m-th derivative of 1/(s exp(b E) + 1). -/

def st (r k : ℕ) : ℂ := ∑ m ∈ Finset.range (k + 1), (Nat.choose k m : ℂ) * (m : ℂ) ^ r * (-1) ^ (k + m)

theorem m1pow_nat (k : ℕ) : m1pow (k : ℤ) = (-1) ^ k := by simp [m1pow]

theorem frk_eq (r k : ℕ) : ((frk r k : ℝ) : ℂ) = st r k := by
  unfold frk st sumTo choose
  rw [show ((1 : ℤ) + (k : ℤ)).toNat = k + 1 by omega, Finset.mul_sum]
  push_cast
  refine Finset.sum_congr rfl fun m _ => ?_
  simp only [m1pow_nat, Int.toNat_natCast]
  push_cast
  ring

theorem st_zero (k : ℕ) : st 0 k = if k = 0 then 1 else 0 := by
  have h := add_pow (1 : ℂ) (-1) k
  have h2 : st 0 k = (-1) ^ k * ∑ m ∈ Finset.range (k + 1), (-1 : ℂ) ^ m * (Nat.choose k m : ℂ) := by
    unfold st
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun m _ => ?_
    rw [pow_add]; ring
  have h3 := add_pow (-1 : ℂ) 1 k
  simp only [one_pow, mul_one] at h3
  rw [h2, ← h3]
  by_cases hk : k = 0
  · simp [hk]
  · simp [hk]

theorem st_succ_zero (r : ℕ) : st (r + 1) 0 = 0 := by simp [st]

theorem st_succ (r k : ℕ) : st (r + 1) (k + 1) = (k + 1) * (st r (k + 1) + st r k) := by
  have e : st r k = ∑ m ∈ Finset.range (k + 1 + 1), (Nat.choose k m : ℂ) * (m : ℂ) ^ r * (-1) ^ (k + m) := by
    rw [Finset.sum_range_succ]; simp [st]
  rw [e]
  unfold st
  rw [← Finset.sum_add_distrib, Finset.mul_sum]
  refine Finset.sum_congr rfl fun m _ => ?_
  have key : ((k : ℂ) + 1) * ((Nat.choose (k + 1) m : ℂ) - (Nat.choose k m : ℂ)) = (m : ℂ) * (Nat.choose (k + 1) m : ℂ) := by
    cases m with
    | zero => simp
    | succ j =>
      have h1 : ((k + 1).choose (j + 1) : ℂ) = (k.choose j : ℂ) + (k.choose (j + 1) : ℂ) := by
        rw [Nat.choose_succ_succ]; push_cast; ring
      have h2 := Nat.add_one_mul_choose_eq k j
      have h3 : ((k : ℂ) + 1) * (k.choose j : ℂ) = ((k + 1).choose (j + 1) : ℂ) * ((j : ℂ) + 1) := by exact_mod_cast h2
      rw [show ((k + 1).choose (j + 1) : ℂ) - (k.choose (j + 1) : ℂ) = (k.choose j : ℂ) by rw [h1]; ring, h3]
      push_cast; ring
  have : (Nat.choose (k + 1) m : ℂ) * (m : ℂ) ^ (r + 1) * (-1) ^ (k + 1 + m)
      = ((m : ℂ) * (Nat.choose (k + 1) m : ℂ)) * (m : ℂ) ^ r * (-1) ^ (k + 1 + m) := by ring
  rw [this, ← key]
  ring

theorem st_above (r : ℕ) : ∀ k, r < k → st r k = 0 := by
  induction r with
  | zero => intro k hk; rw [st_zero]; simp; omega
  | succ r ih =>
    intro k hk
    obtain ⟨j, rfl⟩ : ∃ j, k = j + 1 := ⟨k - 1, by omega⟩
    rw [st_succ, ih _ (by omega), ih _ (by omega)]; ring

def P (m : ℕ) (x : ℂ) : ℂ := ∑ k ∈ Finset.range (m + 1), st m k * x ^ k
def P' (m : ℕ) (x : ℂ) : ℂ := ∑ k ∈ Finset.range (m + 1), st m k * ((k : ℂ) * x ^ (k - 1))

theorem P_deriv (m : ℕ) (x : ℂ) : HasDerivAt (P m) (P' m x) x := by
  unfold P P'
  refine HasDerivAt.fun_sum fun k _ => ?_
  exact (hasDerivAt_pow k x).const_mul _

theorem P_step (m : ℕ) (x : ℂ) : P (m + 1) x = x * P m x + x * (1 + x) * P' m x := by
  have hR : x * P m x + x * (1 + x) * P' m x
      = (∑ k ∈ Finset.range (m + 1), (k : ℂ) * st m k * x ^ k) + ∑ k ∈ Finset.range (m + 1), ((k : ℂ) + 1) * st m k * x ^ (k + 1) := by
    unfold P P'
    rw [Finset.mul_sum, Finset.mul_sum, ← Finset.sum_add_distrib, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun k _ => ?_
    cases k with
    | zero => simp; ring
    | succ j => simp only [Nat.add_sub_cancel]; push_cast; ring
  rw [hR]
  unfold P
  rw [Finset.sum_range_succ', st_succ_zero]
  have hA : (∑ k ∈ Finset.range (m + 1), (k : ℂ) * st m k * x ^ k) = ∑ k ∈ Finset.range (m + 1), ((k : ℂ) + 1) * st m (k + 1) * x ^ (k + 1) := by
    have h1 : (∑ k ∈ Finset.range (m + 1 + 1), (k : ℂ) * st m k * x ^ k) = ∑ k ∈ Finset.range (m + 1), (k : ℂ) * st m k * x ^ k := by
      rw [Finset.sum_range_succ, st_above m (m + 1) (by omega)]; ring
    rw [← h1, Finset.sum_range_succ']
    simp
  rw [hA, zero_mul, add_zero, ← Finset.sum_add_distrib]
  refine Finset.sum_congr rfl fun k _ => ?_
  rw [st_succ]; ring

/-- the contract's formula in terms of x = -s w and the undifferentiated function -/
theorem fb_eq (m : ℕ) (s b : ℝ) (E : ℂ) :
    fermi_bose m s b E = (1 + (s : ℂ) * Complex.exp (E * b))⁻¹ * P m (-((s : ℂ) * ((s : ℂ) + Complex.exp (-(E * b)))⁻¹)) * (b : ℂ) ^ m := by
  unfold fermi_bose
  have e1 : (s : ℂ) * Complex.exp ((b : ℂ) * E) + 1 = 1 + (s : ℂ) * Complex.exp (E * b) := by rw [mul_comm (b : ℂ) E, add_comm]
  have e2 : (-1 : ℂ) * ((b : ℂ) * E) = -(E * b) := by ring
  simp only [e1, e2]
  by_cases hm : m = 0
  · subst hm; simp [P, st]
  · have hm' : ¬ ((m : ℤ) = 0) := by exact_mod_cast hm
    rw [if_neg hm']
    unfold sumTo P
    rw [show ((1 : ℤ) + (m : ℤ)).toNat = m + 1 by omega]
    simp only [frk_eq, m1pow_nat, Int.toNat_natCast]
    rw [mul_assoc]
    congr 1
    rw [mul_comm]
    congr 1
    refine Finset.sum_congr rfl fun k _ => ?_
    rw [neg_pow ((s : ℂ) * _), mul_pow]
    push_cast
    ring

theorem fb_deriv (m : ℕ) (s b : ℝ) (hs : s = 1 ∨ s = -1) (E : ℂ) (hE : 1 + (s : ℂ) * Complex.exp (E * b) ≠ 0) :
    HasDerivAt (fun E => fermi_bose m s b E) (fermi_bose ((m + 1 : ℕ) : ℤ) s b E) E := by
  have hu : Complex.exp (E * b) ≠ 0 := Complex.exp_ne_zero _
  have hs2 : (s : ℂ) * s = 1 := by rcases hs with h | h <;> simp [h]
  have dlin : HasDerivAt (fun E : ℂ => E * (b : ℂ)) (b : ℂ) E := by simpa using (hasDerivAt_id E).mul_const (b : ℂ)
  have du : HasDerivAt (fun E : ℂ => Complex.exp (E * b)) (Complex.exp (E * b) * b) E := dlin.cexp
  have dv : HasDerivAt (fun E : ℂ => Complex.exp (-(E * b))) (Complex.exp (-(E * b)) * (-b)) E := dlin.neg.cexp
  have hinv : Complex.exp (-(E * b)) = (Complex.exp (E * b))⁻¹ := Complex.exp_neg _
  have hw : (s : ℂ) + Complex.exp (-(E * b)) ≠ 0 := by
    rw [hinv]
    intro h
    apply hE
    have : ((s : ℂ) + (Complex.exp (E * b))⁻¹) * Complex.exp (E * b) = 0 := by rw [h, zero_mul]
    rw [add_mul, inv_mul_cancel₀ hu] at this
    rw [add_comm]; exact this
  have dbase : HasDerivAt (fun E : ℂ => (1 + (s : ℂ) * Complex.exp (E * b))⁻¹)
      (-((s : ℂ) * (Complex.exp (E * b) * b)) / (1 + (s : ℂ) * Complex.exp (E * b)) ^ 2) E := by
    exact HasDerivAt.fun_inv ((du.const_mul (s : ℂ)).const_add 1) hE
  have dx : HasDerivAt (fun E : ℂ => -((s : ℂ) * ((s : ℂ) + Complex.exp (-(E * b)))⁻¹))
      (-((s : ℂ) * (-(Complex.exp (-(E * b)) * (-b)) / ((s : ℂ) + Complex.exp (-(E * b))) ^ 2))) E := by
    exact ((HasDerivAt.fun_inv (dv.const_add (s : ℂ)) hw).const_mul (s : ℂ)).neg
  have dP := (P_deriv m (-((s : ℂ) * ((s : ℂ) + Complex.exp (-(E * b)))⁻¹))).comp E dx
  have d := (dbase.mul dP).mul_const ((b : ℂ) ^ m)
  have hfun : (fun E => fermi_bose m s b E) = fun E => (1 + (s : ℂ) * Complex.exp (E * b))⁻¹ * P m (-((s : ℂ) * ((s : ℂ) + Complex.exp (-(E * b)))⁻¹)) * (b : ℂ) ^ m := by
    funext E; exact fb_eq m s b E
  rw [hfun]
  refine d.congr_deriv ?_
  rw [fb_eq, P_step]
  simp only [Function.comp]
  generalize P m _ = p
  generalize P' m _ = p'
  rw [hinv] at hw ⊢
  generalize Complex.exp (E * b) = u at *
  have hsu : (s : ℂ) + u⁻¹ = (s * u + 1) / u := by field_simp
  have hE' : (s : ℂ) * u + 1 ≠ 0 := by rw [add_comm]; exact hE
  rw [hsu]
  have e1 : -((s : ℂ) * (((s : ℂ) * u + 1) / u)⁻¹) = -(s * u) / (s * u + 1) := by field_simp
  rw [e1]
  rw [show (1 : ℂ) + s * u = s * u + 1 by ring]
  field_simp
  ring

/-- the specification of fermi_bose is the m-th derivative, for every order, temperature and energy away from the poles -/
theorem fermi_bose_is_derivative (m : ℕ) (s b : ℝ) (hs : s = 1 ∨ s = -1) :
    ∀ E : ℂ, 1 + (s : ℂ) * Complex.exp (E * b) ≠ 0 →
      iteratedDeriv m (fun E : ℂ => 1 / ((s : ℂ) * Complex.exp (E * b) + 1)) E = fermi_bose m s b E := by
  induction m with
  | zero =>
    intro E _
    rw [iteratedDeriv_zero, fb_eq]
    simp [P, st, add_comm]
  | succ m ih =>
    intro E hE
    rw [iteratedDeriv_succ]
    have hopen : ∀ᶠ z in nhds E, 1 + (s : ℂ) * Complex.exp (z * b) ≠ 0 := by
      have hc : ContinuousAt (fun z : ℂ => 1 + (s : ℂ) * Complex.exp (z * b)) E := by fun_prop
      exact hc.eventually_ne hE
    have heq : iteratedDeriv m (fun E : ℂ => 1 / ((s : ℂ) * Complex.exp (E * b) + 1)) =ᶠ[nhds E] fun E => fermi_bose m s b E :=
      hopen.mono fun z hz => ih z hz
    rw [heq.deriv_eq]
    exact (fb_deriv m s b hs E hE).deriv
