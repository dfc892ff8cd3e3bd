
/-! simple and higher-order residues -/

namespace Formats

open Filter Topology

theorem prod_flatTo {α M : Type} [CommMonoid M] (n : ℤ) (F : ℤ → List α) (f : α → M) :
    ((flatTo n F).map f).prod = ∏ j ∈ Finset.range n.toNat, ((F (j : ℤ)).map f).prod := by
  unfold flatTo
  induction n.toNat with
  | zero => simp
  | succ k ih => rw [List.range_succ, List.flatMap_append, List.map_append, List.prod_append, ih, Finset.prod_range_succ]; simp

theorem sum_flatTo {α : Type} (n : ℤ) (F : ℤ → List α) (f : α → ℂ) :
    ((flatTo n F).map f).sum = ∑ j ∈ Finset.range n.toNat, ((F (j : ℤ)).map f).sum := by
  unfold flatTo
  induction n.toNat with
  | zero => simp
  | succ k ih => rw [List.range_succ, List.flatMap_append, List.map_append, List.sum_append, ih, Finset.sum_range_succ]; simp

theorem prod_range {α M : Type} [Inhabited α] [CommMonoid M] (v : List α) (f : α → M) : (v.map f).prod = ∏ j ∈ Finset.range v.length, f (get v (j : ℤ)) := by
  rw [Finset.prod_range, ← List.prod_ofFn]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp at h1
    simp [get_lt v i h1]

theorem sum_range {α : Type} [Inhabited α] (v : List α) (f : α → ℂ) : (v.map f).sum = ∑ j ∈ Finset.range v.length, f (get v (j : ℤ)) := by
  rw [Finset.sum_range, ← List.sum_ofFn]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp at h1
    simp [get_lt v i h1]

/-- propagator product with the integrated frequency at z -/
def prodAt (R : List g_struct) (X : ami_vars) (i : ℤ) (z : ℂ) : ℂ := (R.map fun g => (value g (at' X i z))⁻¹).prod

/-- integrand of one frequency: all lines of one shape, coefficients 0, +1, -1 -/
structure Integrand (R : List g_struct) (X : ami_vars) (i : ℕ) (na ne : ℕ) : Prop where
  some : R ≠ []
  la : ∀ g ∈ R, g.alpha_.length = na
  le : ∀ g ∈ R, g.eps_.length = ne
  inr : i < na
  xa : X.frequency_.length = na
  unit : ∀ g ∈ R, get g.alpha_ (i : ℤ) = 0 ∨ get g.alpha_ (i : ℤ) = 1 ∨ get g.alpha_ (i : ℤ) = -1

theorem Integrand.fits {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) : Found i R d R.length p ∧ (∀ g ∈ R, Fits g p X i) ∧ ∀ a ∈ p.which_g_, value (get R a) (at' X i (location' p X)) = 0 := by
  have h0 : (0 : ℕ) < R.length := List.length_pos_of_ne_nil h.some
  have m0 : get R 0 ∈ R := by rw [show (0 : ℤ) = ((0 : ℕ) : ℤ) by rfl, get_lt _ _ h0]; exact List.getElem_mem _
  have s := search i R d h.some (by have := h.la _ m0; have := h.inr; simp [len]; omega)
  have f := s.found p hp
  have v := lines_vanish X i R d h.some (fun g hg => by rw [h.la g hg]; exact h.inr) (by rw [h.xa]; exact h.inr) h.unit p hp
  refine ⟨f, ?_, v.2⟩
  obtain ⟨a, t, e⟩ := List.exists_cons_of_ne_nil f.some
  obtain ⟨j, rfl, hj, hdep, hk⟩ := f.lines a (by simp [e])
  have hm : get R (j : ℤ) ∈ R := by rw [get_lt _ _ hj]; exact List.getElem_mem _
  unfold key at hk
  rw [Prod.mk.injEq] at hk
  have la : p.alpha_.length = na := by rw [hk.1]; unfold loc pole_of_line; dsimp only; rw [flatTo_unit]; simp [len, h.la _ hm]
  have le' : p.eps_.length = ne := by rw [hk.2]; unfold loc pole_of_line; dsimp only; rw [flatTo_unit]; simp [len, h.le _ hm]
  intro g hg
  exact ⟨f.index, by rw [h.la g hg]; exact h.inr, by rw [la, h.la g hg], by rw [le', h.le g hg], by rw [h.xa]; exact h.inr, v.1⟩

/-- a line of the pole is its coefficient times the distance from the pole -/
theorem line_near {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) (a : ℤ) (ha : a ∈ p.which_g_) (z : ℂ) (_hz : z ≠ location' p X) :
    (value (get R a) (at' X i z))⁻¹ = ((get (get R a).alpha_ (i : ℤ) : ℤ) : ℂ) * (z - location' p X)⁻¹ := by
  obtain ⟨f, ft, v⟩ := h.fits hp
  obtain ⟨j, rfl, hj, hdep, _⟩ := f.lines a ha
  have hm : get R (j : ℤ) ∈ R := by rw [get_lt _ _ hj]; exact List.getElem_mem _
  have f1 := ft _ hm
  have v0 := v _ ha
  rw [value_at _ _ _ _ f1.ga f1.xa] at v0 ⊢
  have : ((get (get R (j : ℤ)).alpha_ (i : ℤ) : ℤ) : ℂ) * z + rest (get R (j : ℤ)) X i = ((get (get R (j : ℤ)).alpha_ (i : ℤ) : ℤ) : ℂ) * (z - location' p X) := by
    linear_combination v0
  rw [this, mul_inv]
  rcases h.unit _ hm with h | h | h
  · exact absurd h hdep
  · rw [h]; simp
  · rw [h]; norm_num

theorem reduce_prod (R : List g_struct) (p : pole_struct) (f : g_struct → ℂ) :
    ((reduce_gprod R p).map f).prod = ∏ j ∈ Finset.range R.length, if (j : ℤ) ∈ p.which_g_ then 1 else f (get R (j : ℤ)) := by
  unfold reduce_gprod
  rw [prod_flatTo]
  refine Finset.prod_congr (by simp [len]) fun j _ => ?_
  have : (exTo (len p.which_g_) fun i1 => (-1 : ℤ) * get p.which_g_ i1 + (j : ℤ) = 0) ↔ (j : ℤ) ∈ p.which_g_ := by
    unfold exTo
    constructor
    · rintro ⟨k, hk, e⟩
      have hk : k < p.which_g_.length := by simpa [len] using hk
      rw [get_lt _ _ hk] at e
      have : (j : ℤ) = p.which_g_[k] := by omega
      rw [this]; exact List.getElem_mem _
    · intro hm
      obtain ⟨k, hk, e⟩ := List.getElem_of_mem hm
      exact ⟨k, by simpa [len] using hk, by beta_reduce; rw [get_lt _ _ hk]; omega⟩
  by_cases hm : (j : ℤ) ∈ p.which_g_
  · rw [if_pos (this.mpr hm), if_pos hm]; simp
  · rw [if_neg (fun h => hm (this.mp h)), if_neg hm]; simp

theorem which_prod (R : List g_struct) (w : List ℤ) (hs : w.Pairwise (· < ·)) (hw : ∀ a ∈ w, ∃ j : ℕ, a = j ∧ j < R.length) (f : ℤ → ℂ) :
    ∏ j ∈ Finset.range R.length, (if (j : ℤ) ∈ w then f j else 1) = (w.map f).prod := by
  have nd : w.Nodup := hs.imp (fun h => ne_of_lt h)
  rw [← List.prod_toFinset f nd, ← Finset.prod_filter]
  refine Finset.prod_bij (fun j _ => (j : ℤ)) ?_ ?_ ?_ ?_
  · intro j hj; simpa using (Finset.mem_filter.mp hj).2
  · intro a _ b _ e; exact_mod_cast e
  · intro a ha
    have ha : a ∈ w := by simpa using ha
    obtain ⟨j, e, hj⟩ := hw a ha
    exact ⟨j, Finset.mem_filter.mpr ⟨Finset.mem_range.mpr hj, e ▸ ha⟩, e.symm⟩
  · intro j _; rfl

theorem starting_sign_eq (R : List g_struct) (p : pole_struct) :
    ((get_starting_sign R p : ℝ) : ℂ) = ((factorial (-1 + p.multiplicity_) : ℤ) : ℂ)⁻¹ * (p.which_g_.map fun a => ((get (get R a).alpha_ p.index_ : ℤ) : ℂ)).prod := by
  unfold get_starting_sign
  push_cast
  congr 1
  unfold prodTo len
  rw [Int.toNat_natCast, prod_range]
  push_cast; rfl

theorem factorial_ne (n : ℤ) : ((factorial n : ℤ) : ℂ) ≠ 0 := by
  unfold factorial
  exact_mod_cast Nat.factorial_ne_zero _

/-- removal of the vanishing lines: (z - pole)^M times the product is (M-1)! times the starting sign times the reduced product -/
theorem pole_part {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) (z : ℂ) (hz : z ≠ location' p X) :
    (z - location' p X) ^ p.multiplicity_.toNat * prodAt R X i z =
      ((factorial (-1 + p.multiplicity_) : ℤ) : ℂ) * (((get_starting_sign R p : ℝ) : ℂ) * prodAt (reduce_gprod R p) X i z) := by
  obtain ⟨f, ft, v⟩ := h.fits hp
  unfold prodAt
  rw [starting_sign_eq, reduce_prod, prod_range]
  have split : ∏ j ∈ Finset.range R.length, (value (get R (j : ℤ)) (at' X i z))⁻¹ =
      (∏ j ∈ Finset.range R.length, if (j : ℤ) ∈ p.which_g_ then (fun a : ℤ => (value (get R a) (at' X i z))⁻¹) (j : ℤ) else 1) *
        ∏ j ∈ Finset.range R.length, if (j : ℤ) ∈ p.which_g_ then 1 else (value (get R (j : ℤ)) (at' X i z))⁻¹ := by
    rw [← Finset.prod_mul_distrib]
    refine Finset.prod_congr rfl fun j _ => ?_
    split_ifs <;> simp
  rw [split, which_prod R p.which_g_ f.sorted (fun a ha => by obtain ⟨j, e, hj, _⟩ := f.lines a ha; exact ⟨j, e, hj⟩) (fun a : ℤ => (value (get R a) (at' X i z))⁻¹)]
  have hz0 : z - location' p X ≠ 0 := sub_ne_zero.mpr hz
  have e : (z - location' p X) ^ p.multiplicity_.toNat * (p.which_g_.map fun a : ℤ => (value (get R a) (at' X i z))⁻¹).prod =
      (p.which_g_.map fun a => ((get (get R a).alpha_ p.index_ : ℤ) : ℂ)).prod := by
    rw [List.map_congr_left (fun a ha => line_near h hp a ha z hz), List.prod_map_mul, f.index]
    rw [show p.multiplicity_.toNat = p.which_g_.length by rw [f.mult]; simp [len]]
    simp only [List.map_const', List.prod_replicate]
    have : (z - location' p X) ^ p.which_g_.length * ((z - location' p X)⁻¹) ^ p.which_g_.length = 1 := by
      rw [← mul_pow, mul_inv_cancel₀ hz0, one_pow]
    linear_combination (p.which_g_.map fun a => ((get (get R a).alpha_ (i : ℤ) : ℤ) : ℂ)).prod * this
  have hfac := factorial_ne (-1 + p.multiplicity_)
  rw [← mul_assoc, e]
  field_simp

/-- the reduced product at the pole, by substitution -/
theorem substituted {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) (l : List g_struct) (hl : ∀ g ∈ l, g ∈ R) :
    ((l.map fun g => update_G_pole g p).map fun g => (value g X)⁻¹).prod = prodAt l X i (location' p X) := by
  obtain ⟨f, ft, v⟩ := h.fits hp
  unfold prodAt
  rw [List.map_map]
  congr 1
  refine List.map_congr_left fun g hg => ?_
  simp only [Function.comp]
  rw [substitution_value g p X i (ft g (hl g hg)), f.index]

theorem reduce_sub (R : List g_struct) (p : pole_struct) (g : g_struct) (hg : g ∈ reduce_gprod R p) : g ∈ R := by
  unfold reduce_gprod flatTo at hg
  obtain ⟨j, hj, hg⟩ := List.mem_flatMap.mp hg
  beta_reduce at hg
  split_ifs at hg
  · simp at hg
  · rw [List.mem_singleton] at hg
    have hj : j < R.length := by simpa [len] using List.mem_range.mp hj
    rw [hg, get_lt _ _ hj]; exact List.getElem_mem _

theorem continuous_prodAt {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) (l : List g_struct) (hl : ∀ g ∈ l, g ∈ R) (z : ℂ)
    (h0 : ∀ g ∈ l, value g (at' X i z) ≠ 0) : ContinuousAt (prodAt l X i) z := by
  induction l with
  | nil =>
    have : prodAt [] X i = fun _ => (1 : ℂ) := by funext z; simp [prodAt]
    rw [this]; exact continuousAt_const
  | cons g l ih =>
    have e : prodAt (g :: l) X i = fun z => (value g (at' X i z))⁻¹ * prodAt l X i z := by funext z; simp [prodAt]
    rw [e]
    refine ContinuousAt.mul (ContinuousAt.inv₀ ?_ (h0 g (by simp))) (ih (fun g hg => hl g (by simp [hg])) (fun g hg => h0 g (by simp [hg])))
    have hg := hl g (by simp)
    have : (fun z => value g (at' X i z)) = fun z => ((get g.alpha_ (i : ℤ) : ℤ) : ℂ) * z + rest g X i := by
      funext z; exact value_at g X i z (by rw [h.la g hg]; exact h.inr) (by rw [h.xa]; exact h.inr)
    rw [this]
    fun_prop

/-- C03: sign times the product of the substituted other lines is the residue -/
theorem simple_residue_is_residue {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) (hm : p.multiplicity_ = 1) (h0 : ∀ g ∈ reduce_gprod R p, value g (at' X i (location' p X)) ≠ 0) :
    Tendsto (fun z => (z - location' p X) * prodAt R X i z) (𝓝[≠] location' p X)
      (𝓝 (((get_simple_sign i R p : ℝ) : ℂ) * ((simple_residue R p).map fun g => (value g X)⁻¹).prod)) := by
  obtain ⟨f, ft, v⟩ := h.fits hp
  have e1 : p.which_g_.length = 1 := by have := f.mult; rw [hm] at this; simp [len] at this; omega
  obtain ⟨w, hw⟩ := List.length_eq_one_iff.mp e1
  have hg0 : get p.which_g_ 0 = w := by rw [hw]; simp [get]
  have hs : simple_residue R p = (reduce_gprod R p).map fun g => update_G_pole g p := by
    unfold simple_residue reduce_gprod
    rw [map_flatTo]
    refine flatTo_congr _ _ _ fun j _ => ?_
    have : (exTo (len p.which_g_) fun i1 => (-1 : ℤ) * get p.which_g_ i1 + (j : ℤ) = 0) ↔ ((-1 : ℤ) * get p.which_g_ 0 + (j : ℤ) = 0) := by
      rw [hw]
      unfold exTo len get
      simp
    by_cases hc : (-1 : ℤ) * get p.which_g_ 0 + (j : ℤ) = 0
    · rw [if_pos hc, if_pos (this.mpr hc)]; rfl
    · rw [if_neg hc, if_neg (fun x => hc (this.mp x))]; rfl
  rw [hs, substituted h hp _ (reduce_sub R p)]
  have hsign : ((factorial (-1 + p.multiplicity_) : ℤ) : ℂ) * ((get_starting_sign R p : ℝ) : ℂ) = ((get_simple_sign i R p : ℝ) : ℂ) := by
    rw [starting_sign_eq, hm, hw]
    unfold get_simple_sign
    rw [hg0, f.index]
    simp [factorial]
  have c := (continuous_prodAt h (reduce_gprod R p) (reduce_sub R p) _ h0).tendsto
  have c2 : Tendsto (fun z => ((get_simple_sign i R p : ℝ) : ℂ) * prodAt (reduce_gprod R p) X i z) (𝓝[≠] location' p X)
      (𝓝 (((get_simple_sign i R p : ℝ) : ℂ) * prodAt (reduce_gprod R p) X i (location' p X))) :=
    (c.mono_left nhdsWithin_le_nhds).const_mul _
  refine c2.congr' ?_
  filter_upwards [self_mem_nhdsWithin] with z hz
  have := pole_part h hp z hz
  rw [hm] at this
  rw [← hsign, hm]
  simp only [Int.toNat_one, pow_one] at this
  rw [this, mul_assoc]

/-! product rule -/

/-- occupation derivative times lines, as a function of the integrated frequency -/
def V (F : ℤ → ℂ → ℂ) (X : ami_vars) (i : ℤ) (x : triple) (z : ℂ) : ℂ := (x.s : ℂ) * (F x.q.der_ z * prodAt x.g X i z)

theorem deriv_prodAt {X : ami_vars} {i : ℕ} (l : List g_struct) (hl : ∀ g ∈ l, i < g.alpha_.length) (hX : i < X.frequency_.length) (z : ℂ)
    (h0 : ∀ g ∈ l, value g (at' X i z) ≠ 0) :
    HasDerivAt (prodAt l X i) ((l.map fun g => -(((get g.alpha_ (i : ℤ) : ℤ) : ℂ)) * (value g (at' X i z))⁻¹).sum * prodAt l X i z) z := by
  induction l with
  | nil =>
    have : prodAt [] X i = fun _ => (1 : ℂ) := by funext z; simp [prodAt]
    rw [this]; simpa using hasDerivAt_const z (1 : ℂ)
  | cons g l ih =>
    have e : prodAt (g :: l) X i = fun z => (value g (at' X i z))⁻¹ * prodAt l X i z := by funext z; simp [prodAt]
    rw [e]
    have hg := hl g (by simp)
    have hv : (fun z => value g (at' X i z)) = fun z => ((get g.alpha_ (i : ℤ) : ℤ) : ℂ) * z + rest g X i := by
      funext z; exact value_at g X i z hg hX
    have d1 : HasDerivAt (fun z => value g (at' X i z)) ((get g.alpha_ (i : ℤ) : ℤ) : ℂ) z := by
      rw [hv]; simpa using ((hasDerivAt_id z).const_mul ((get g.alpha_ (i : ℤ) : ℤ) : ℂ)).add_const (rest g X i)
    have n0 := h0 g (by simp)
    have d2 := (d1.inv n0).mul (ih (fun g hg => hl g (by simp [hg])) (fun g hg => h0 g (by simp [hg])))
    refine d2.congr_deriv ?_
    simp only [List.map_cons, List.sum_cons, Pi.inv_apply]
    field_simp

theorem double_prod (l : List g_struct) (t : ℕ) (ht : t < l.length) (X : ami_vars) (i : ℤ) (z : ℂ) :
    prodAt (double_line l t) X i z = (value (get l (t : ℤ)) (at' X i z))⁻¹ * prodAt l X i z := by
  unfold prodAt double_line
  rw [prod_flatTo, prod_range]
  have : ∀ j ∈ Finset.range (len l).toNat, (([get l (j : ℤ)] ++ if (-1 : ℤ) * (t : ℤ) + (j : ℤ) = 0 then [get l (j : ℤ)] else []).map fun g => (value g (at' X i z))⁻¹).prod
      = (if j = t then (value (get l (j : ℤ)) (at' X i z))⁻¹ else 1) * (value (get l (j : ℤ)) (at' X i z))⁻¹ := by
    intro j _
    by_cases e : j = t
    · rw [if_pos (by omega), if_pos e]; simp
    · rw [if_neg (by omega), if_neg e]; simp
  rw [Finset.prod_congr rfl this, Finset.prod_mul_distrib, Finset.prod_ite_eq']
  simp only [len, Int.toNat_natCast, Finset.mem_range, ht, if_true]

theorem double_sub (l : List g_struct) (t : ℤ) (g : g_struct) (hg : g ∈ double_line l t) : g ∈ l := by
  unfold double_line flatTo at hg
  obtain ⟨j, hj, hg⟩ := List.mem_flatMap.mp hg
  have hj : j < l.length := by simpa [len] using List.mem_range.mp hj
  have hm : get l (j : ℤ) ∈ l := by rw [get_lt _ _ hj]; exact List.getElem_mem _
  beta_reduce at hg
  split_ifs at hg
  · simp at hg; rw [hg]; exact hm
  · simp at hg; rw [hg]; exact hm

theorem expand_facts (x y : triple) (h : y ∈ expand x) (hx : 0 ≤ x.q.der_) : 0 ≤ y.q.der_ ∧ ∀ g ∈ y.g, g ∈ x.g := by
  unfold expand flatTo at h
  rw [List.mem_append, List.mem_singleton, List.mem_flatMap] at h
  rcases h with h | ⟨j, _, h⟩
  · rw [h]; exact ⟨by simp [raised]; omega, fun g hg => hg⟩
  · beta_reduce at h
    split_ifs at h
    · simp at h
    · rw [List.mem_singleton] at h
      rw [h]; exact ⟨hx, fun g hg => double_sub _ _ _ hg⟩

/-- one differentiation -/
theorem deriv_expand {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) (F : ℤ → ℂ → ℂ) (x : triple) (hx : 0 ≤ x.q.der_)
    (hi : x.q.index_ = i) (hl : ∀ g ∈ x.g, g ∈ R) (z : ℂ) (h0 : ∀ g ∈ x.g, value g (at' X i z) ≠ 0)
    (hF : ∀ m : ℤ, 0 ≤ m → HasDerivAt (F m) (F (1 + m) z) z) :
    HasDerivAt (V F X i x) ((expand x).map fun y => V F X i y z).sum z := by
  have d := ((hF _ hx).mul (deriv_prodAt x.g (fun g hg => by rw [h.la g (hl g hg)]; exact h.inr) (by rw [h.xa]; exact h.inr) z h0)).const_mul (x.s : ℂ)
  refine d.congr_deriv ?_
  unfold expand
  rw [List.map_append, List.sum_append, sum_flatTo, hi, sum_range]
  have : ∀ j ∈ Finset.range (len x.g).toNat, (((if get (get x.g (j : ℤ)).alpha_ (i : ℤ) = 0 then []
      else [(⟨double_line x.g (j : ℤ), x.q, (-1 : ℝ) * ((((get (get x.g (j : ℤ)).alpha_ (i : ℤ) : ℤ)) : ℝ) * x.s)⟩ : triple)]).map fun y => V F X i y z).sum)
      = (x.s : ℂ) * F x.q.der_ z * prodAt x.g X i z * (-(((get (get x.g (j : ℤ)).alpha_ (i : ℤ) : ℤ) : ℂ)) * (value (get x.g (j : ℤ)) (at' X i z))⁻¹) := by
    intro j hj
    have hj : j < x.g.length := by simpa [len] using Finset.mem_range.mp hj
    split_ifs with h0
    · rw [h0]; simp
    · simp only [List.map_cons, List.map_nil, List.sum_cons, List.sum_nil, add_zero, V]
      rw [double_prod _ _ hj]
      push_cast; ring
  rw [Finset.sum_congr rfl this, ← Finset.mul_sum]
  simp only [len, Int.toNat_natCast, List.map_cons, List.map_nil, List.sum_cons, List.sum_nil, add_zero, V, raised]
  ring

theorem triples_facts (R : List g_struct) (p : pole_struct) (hd : p.der_ = 0) (k : ℕ) :
    ∀ x ∈ triples R p k, 0 ≤ x.q.der_ ∧ x.q.index_ = p.index_ ∧ ∀ g ∈ x.g, g ∈ reduce_gprod R p := by
  induction k with
  | zero =>
    intro x hx
    simp only [triples, List.mem_singleton] at hx
    rw [hx]; exact ⟨by simp [hd], rfl, fun g hg => hg⟩
  | succ k ih =>
    intro y hy
    obtain ⟨x, hx, hy⟩ := List.mem_flatMap.mp hy
    obtain ⟨a, b, c⟩ := ih x hx
    obtain ⟨a', c'⟩ := expand_facts x y hy a
    exact ⟨a', by rw [expand_index x y hy, b], fun g hg => c g (c' g hg)⟩

theorem hasDerivAt_listSum {ι : Type} (l : List ι) (f : ι → ℂ → ℂ) (f' : ι → ℂ) (z : ℂ) (h : ∀ x ∈ l, HasDerivAt (f x) (f' x) z) :
    HasDerivAt (fun z => (l.map fun x => f x z).sum) (l.map f').sum z := by
  induction l with
  | nil => simpa using hasDerivAt_const z (0 : ℂ)
  | cons a l ih =>
    simp only [List.map_cons, List.sum_cons]
    exact (h a (by simp)).add (ih fun x hx => h x (by simp [hx]))

/-- k differentiations -/
theorem iterated {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) (F : ℤ → ℂ → ℂ) (U : Set ℂ) (hU : IsOpen U) (h0 : ∀ z ∈ U, ∀ g ∈ reduce_gprod R p, value g (at' X i z) ≠ 0)
    (hF : ∀ z ∈ U, ∀ m : ℤ, 0 ≤ m → HasDerivAt (F m) (F (1 + m) z) z) (k : ℕ) :
    ∀ z ∈ U, iteratedDeriv k (fun z => ((get_starting_sign R p : ℝ) : ℂ) * (F 0 z * prodAt (reduce_gprod R p) X i z)) z =
      ((triples R p k).map fun x => V F X i x z).sum := by
  obtain ⟨f, ft, v⟩ := h.fits hp
  induction k with
  | zero => intro z _; simp [triples, V, f.der]
  | succ k ih =>
    intro z hz
    rw [iteratedDeriv_succ]
    have ev : iteratedDeriv k (fun z => ((get_starting_sign R p : ℝ) : ℂ) * (F 0 z * prodAt (reduce_gprod R p) X i z)) =ᶠ[𝓝 z]
        fun z => ((triples R p k).map fun x => V F X i x z).sum := by
      filter_upwards [hU.mem_nhds hz] with w hw using ih w hw
    rw [ev.deriv_eq]
    rw [(hasDerivAt_listSum (triples R p k) (fun x => V F X i x) (fun x => ((expand x).map fun y => V F X i y z).sum) z ?_).deriv]
    · rw [triples, List.map_flatMap]
      induction triples R p k with
      | nil => rfl
      | cons a l ih => simp [List.flatMap_cons, ih]
    · intro x hx
      obtain ⟨a, b, c⟩ := triples_facts R p f.der k x hx
      exact deriv_expand h F x a (by rw [b, f.index]) (fun g hg => reduce_sub R p g (c g hg)) z (fun g hg => h0 z hz g (c g hg)) (fun m hm => hF z hz m hm)

/-- C04: the expansion is the (M-1)-th derivative at the pole of starting sign times occupation times the remaining lines, every derivative of
    the occupation being recorded by its order, and every line being replaced by the substituted one -/
theorem general_residue_is_derivative {R : List g_struct} {X : ami_vars} {i na ne : ℕ} (h : Integrand R X i na ne) {d : Prop} {p : pole_struct}
    (hp : p ∈ find_poles i R d) (F : ℤ → ℂ → ℂ) (U : Set ℂ) (hU : IsOpen U) (hpU : location' p X ∈ U)
    (h0 : ∀ z ∈ U, ∀ g ∈ reduce_gprod R p, value g (at' X i z) ≠ 0)
    (hF : ∀ z ∈ U, ∀ m : ℤ, 0 ≤ m → HasDerivAt (F m) (F (1 + m) z) z) :
    sumTo (len (general_residue_signs R p)) (fun j => ((get (general_residue_signs R p) j : ℝ) : ℂ) *
        (F (get (general_residue_poles R p) j).der_ (location' p X) * ((get (general_residue_products R p) j).map fun g => (value g X)⁻¹).prod)) =
      iteratedDeriv (-1 + p.multiplicity_).toNat (fun z => ((get_starting_sign R p : ℝ) : ℂ) * (F 0 z * prodAt (reduce_gprod R p) X i z)) (location' p X) := by
  obtain ⟨f, ft, v⟩ := h.fits hp
  rw [iterated h hp F U hU h0 hF _ _ hpU]
  unfold general_residue_products general_residue_poles general_residue_signs substitute_all
  have hk : ∀ {σ : Type} (f : ℤ → σ → σ) (s : σ), foldTo (-1 + p.multiplicity_) f s = foldTo (((-1 + p.multiplicity_).toNat : ℕ) : ℤ) f s := by
    intro σ f s; unfold foldTo; rw [Int.toNat_natCast]
  obtain ⟨hi, h1, h2, h3⟩ := residue_triples R p 0 (-1 + p.multiplicity_).toNat
  obtain ⟨L, e⟩ : ∃ L, L = triples R p (-1 + p.multiplicity_).toNat := ⟨_, rfl⟩
  rw [← e] at h1 h2 ⊢
  simp only [hk, h1, h2]
  rw [flatTo_list_unit (L.map triple.g) (fun x => flatTo (len x) (fun i1 => [update_G_pole (get x i1) p])), List.map_map, len_map,
    ← sumTo_list L (fun x => V F X i x (location' p X))]
  refine sumTo_congr _ _ _ fun j hj => ?_
  rw [get_map _ _ _ hj, get_map _ _ _ hj, get_map _ _ _ hj]
  have hj : j < L.length := by simpa [len] using hj
  have hm : get L (j : ℤ) ∈ L := by rw [get_lt _ _ hj]; exact List.getElem_mem _
  generalize get L (j : ℤ) = x at hm ⊢
  rw [e] at hm
  obtain ⟨_, _, c⟩ := triples_facts R p f.der _ x hm
  simp only [Function.comp, V]
  rw [flatTo_list_unit x.g (fun g => update_G_pole g p), substituted h hp x.g fun g hg => reduce_sub R p g (c g hg)]

end Formats
