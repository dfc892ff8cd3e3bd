
/-! the value of a line, and substitution of a pole -/

namespace Formats

/-- denominator: frequency combination plus energy combination -/
def value (g : g_struct) (X : ami_vars) : ℂ := dot_cx g.alpha_ X.frequency_ + dot_cx g.eps_ X.energy_

/-- the integrated frequency set to z -/
def at' (X : ami_vars) (i : ℤ) (z : ℂ) : ami_vars := { X with frequency_ := upd X.frequency_ i z }

/-- where a pole lies -/
def location' (p : pole_struct) (X : ami_vars) : ℂ := dot_cx p.alpha_ X.frequency_ + dot_cx p.eps_ X.energy_

/-- product of the lines is their prefactor-free value -/
theorem eval_gprod_value (R : List g_struct) (X : ami_vars) : eval_gprod R X = (X.prefactor : ℂ) * (R.map fun g => (value g X)⁻¹).prod := by
  unfold eval_gprod
  rw [← prodTo_list R fun g => (value g X)⁻¹]; rfl

theorem dot_cx_sum (a : List ℤ) (v : List ℂ) : dot_cx a v = ∑ j ∈ Finset.range a.length, ((get a (j : ℤ) : ℤ) : ℂ) * get v (j : ℤ) := by
  unfold dot_cx sumTo len
  rw [Int.toNat_natCast]
  refine Finset.sum_congr rfl fun j _ => ?_
  push_cast; rfl

theorem get_upd {α : Type} [Inhabited α] (v : List α) (i j : ℕ) (x : α) (h : i < v.length) : get (upd v (i : ℤ) x) (j : ℤ) = if j = i then x else get v (j : ℤ) := by
  unfold get upd
  simp only [Int.toNat_natCast, List.getD_eq_getElem?_getD, List.getElem?_set]
  by_cases hij : i = j
  · subst hij; simp [h]
  · simp [hij, Ne.symm hij]

/-- what a line adds to its coefficient times the integrated frequency -/
def rest (g : g_struct) (X : ami_vars) (i : ℕ) : ℂ :=
  (∑ j ∈ (Finset.range g.alpha_.length).erase i, ((get g.alpha_ (j : ℤ) : ℤ) : ℂ) * get X.frequency_ (j : ℤ)) + dot_cx g.eps_ X.energy_

theorem value_at (g : g_struct) (X : ami_vars) (i : ℕ) (z : ℂ) (hi : i < g.alpha_.length) (hX : i < X.frequency_.length) :
    value g (at' X i z) = ((get g.alpha_ (i : ℤ) : ℤ) : ℂ) * z + rest g X i := by
  unfold value rest at'
  rw [dot_cx_sum, ← Finset.add_sum_erase _ _ (Finset.mem_range.mpr hi)]
  simp only [get_upd _ _ _ _ hX, if_true]
  rw [add_assoc]
  congr 2
  refine Finset.sum_congr rfl fun j hj => ?_
  rw [if_neg (Finset.ne_of_mem_erase hj)]

/-- well-formed against a pole: same numbers of frequencies and energies, and the pole does not depend on the frequency it belongs to -/
structure Fits (g : g_struct) (p : pole_struct) (X : ami_vars) (i : ℕ) : Prop where
  index : p.index_ = i
  ga : i < g.alpha_.length
  pa : p.alpha_.length = g.alpha_.length
  pe : p.eps_.length = g.eps_.length
  xa : i < X.frequency_.length
  free : get p.alpha_ (i : ℤ) = 0

/-- the new denominator is the old one with the integrated frequency at the pole, for all frequencies and energies -/
theorem substitution_value (g : g_struct) (p : pole_struct) (X : ami_vars) (i : ℕ) (h : Fits g p X i) :
    value (update_G_pole g p) X = value g (at' X p.index_ (location' p X)) := by
  rw [h.index, value_at g X i _ h.ga h.xa]
  unfold value location' rest update_G_pole
  simp only [h.index]
  have lenA : (flatTo (len g.alpha_) fun i0 => [if (-1 : ℤ) * (i : ℤ) + i0 = 0 then 0 else get g.alpha_ (i : ℤ) * get p.alpha_ i0 + get g.alpha_ i0]).length = g.alpha_.length := by
    rw [flatTo_unit]; simp [len]
  have lenE : (flatTo (len g.eps_) fun i0 => [get g.alpha_ (i : ℤ) * get p.eps_ i0 + get g.eps_ i0]).length = g.eps_.length := by
    rw [flatTo_unit]; simp [len]
  simp only [dot_cx_sum, lenA, lenE, h.pa, h.pe]
  rw [← Finset.add_sum_erase (Finset.range g.alpha_.length) (fun j => ((get (flatTo (len g.alpha_) fun i0 => [if (-1 : ℤ) * (i : ℤ) + i0 = 0 then 0 else get g.alpha_ (i : ℤ) * get p.alpha_ i0 + get g.alpha_ i0]) (j : ℤ) : ℤ) : ℂ) * get X.frequency_ (j : ℤ)) (Finset.mem_range.mpr h.ga),
    ← Finset.add_sum_erase (Finset.range g.alpha_.length) (fun j => ((get p.alpha_ (j : ℤ) : ℤ) : ℂ) * get X.frequency_ (j : ℤ)) (Finset.mem_range.mpr h.ga)]
  have e1 : ∀ j ∈ (Finset.range g.alpha_.length).erase i, ((get (flatTo (len g.alpha_) fun i0 => [if (-1 : ℤ) * (i : ℤ) + i0 = 0 then 0 else get g.alpha_ (i : ℤ) * get p.alpha_ i0 + get g.alpha_ i0]) (j : ℤ) : ℤ) : ℂ) * get X.frequency_ (j : ℤ)
      = ((get g.alpha_ (i : ℤ) : ℤ) : ℂ) * (((get p.alpha_ (j : ℤ) : ℤ) : ℂ) * get X.frequency_ (j : ℤ)) + ((get g.alpha_ (j : ℤ) : ℤ) : ℂ) * get X.frequency_ (j : ℤ) := by
    intro j hj
    have hj' := Finset.mem_range.mp (Finset.mem_of_mem_erase hj)
    rw [get_flatTo_unit _ _ _ (by simpa [len] using hj'), if_neg (by have := Finset.ne_of_mem_erase hj; omega)]
    push_cast; ring
  have e2 : ∀ j ∈ Finset.range g.eps_.length, ((get (flatTo (len g.eps_) fun i0 => [get g.alpha_ (i : ℤ) * get p.eps_ i0 + get g.eps_ i0]) (j : ℤ) : ℤ) : ℂ) * get X.energy_ (j : ℤ)
      = ((get g.alpha_ (i : ℤ) : ℤ) : ℂ) * (((get p.eps_ (j : ℤ) : ℤ) : ℂ) * get X.energy_ (j : ℤ)) + ((get g.eps_ (j : ℤ) : ℤ) : ℂ) * get X.energy_ (j : ℤ) := by
    intro j hj
    rw [get_flatTo_unit _ _ _ (by simpa [len] using Finset.mem_range.mp hj)]
    push_cast; ring
  rw [Finset.sum_congr rfl e1, Finset.sum_congr rfl e2, get_flatTo_unit _ _ _ (by simpa [len] using h.ga), if_pos (by omega), h.free]
  simp only [Finset.sum_add_distrib, ← Finset.mul_sum]
  push_cast
  ring

/-- and it no longer depends on the integrated frequency -/
theorem substitution_free (g : g_struct) (p : pole_struct) (X : ami_vars) (i : ℕ) (h : Fits g p X i) :
    get (update_G_pole g p).alpha_ p.index_ = 0 ∧ (update_G_pole g p).alpha_.length = g.alpha_.length ∧ (update_G_pole g p).eps_.length = g.eps_.length := by
  refine ⟨?_, ?_, ?_⟩
  · rw [h.index]; unfold update_G_pole
    simp only [h.index]
    rw [get_flatTo_unit _ _ _ (by simpa [len] using h.ga), if_pos (by omega)]
  · unfold update_G_pole; dsimp only; rw [flatTo_unit]; simp [len]
  · unfold update_G_pole; dsimp only; rw [flatTo_unit]; simp [len]

end Formats
